From 0606aeec48444b2b529f4f70b6dbaadfc368f4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:16 +0000
Subject: [PATCH 001/101] fix: count a job before it becomes visible to the
 worker

The worker could run and uncount a job before push_job counted it, which
made the size wrap around to SIZE_MAX and job_dispatcher::async fail to
find a worker.
---
 include/edyn/parallel/worker.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/edyn/parallel/worker.hpp b/include/edyn/parallel/worker.hpp
index be65822..ec732f9 100644
--- a/include/edyn/parallel/worker.hpp
+++ b/include/edyn/parallel/worker.hpp
@@ -13,8 +13,10 @@ namespace edyn {
 class worker {
 public:
     void push_job(const job &j) {
-        m_queue.push(j);
+        // Increment before the job becomes visible to the worker thread, which
+        // decrements after running it. Otherwise the size could wrap around.
         ++m_size;
+        m_queue.push(j);
     }
 
     void run() {
-- 
2.43.0


From e24a8d444b205cfc9c10a35a9d8b3ec19677213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:48 +0000
Subject: [PATCH 002/101] fix: do not lose a stop request issued before the
 worker thread begins

worker::run overwrote the flag set by an earlier worker::stop, thus the
thread would consume the no-op job and block forever, and joining it in
job_dispatcher::stop would never return.
---
 include/edyn/parallel/worker.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/edyn/parallel/worker.hpp b/include/edyn/parallel/worker.hpp
index ec732f9..43cfe95 100644
--- a/include/edyn/parallel/worker.hpp
+++ b/include/edyn/parallel/worker.hpp
@@ -20,8 +20,6 @@ public:
     }
 
     void run() {
-        m_running = true;
-
         for (;;) {
             auto j = m_queue.pop();
             j();
@@ -55,7 +53,7 @@ public:
     }
 
 private:
-    std::atomic_bool m_running {false};
+    std::atomic_bool m_running {true};
     job_queue m_queue;
     std::atomic<size_t> m_size {0};
 };
-- 
2.43.0


From cc8fa3991148d1847a5fb9f6b68d52bfbe02343d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:57 +0000
Subject: [PATCH 003/101] fix: reset the elements of a free list when it is
 cleared

---
 include/edyn/core/free_list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edyn/core/free_list.hpp b/include/edyn/core/free_list.hpp
index d0c30be..e2e1696 100644
--- a/include/edyn/core/free_list.hpp
+++ b/include/edyn/core/free_list.hpp
@@ -47,6 +47,7 @@ public:
     void clear() {
         for (auto i = size_t{}; i < m_elem.size(); ++i) {
             auto &elem = m_elem[i];
+            elem = {};
             elem.next = i + 1;
         }
 
-- 
2.43.0


From ee3964dba40a7947daac234a393d6c295303866f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:58 +0000
Subject: [PATCH 004/101] fix: make the order of unordered pairs a strict weak
 order

---
 include/edyn/core/unordered_pair.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/edyn/core/unordered_pair.hpp b/include/edyn/core/unordered_pair.hpp
index 9552b02..87da4ac 100644
--- a/include/edyn/core/unordered_pair.hpp
+++ b/include/edyn/core/unordered_pair.hpp
@@ -30,13 +30,17 @@ struct unordered_pair {
     }
 
     bool operator<(const unordered_pair &other) const {
-        if (first == other.second && second == other.first) {
-            return false;
+        // Compare the normalized pairs so that the ordering is consistent
+        // with the order-independent `operator==`.
+        const T &min0 = second < first ? second : first;
+        const T &max0 = second < first ? first : second;
+        const T &min1 = other.second < other.first ? other.second : other.first;
+        const T &max1 = other.second < other.first ? other.first : other.second;
+
+        if (min0 == min1) {
+            return max0 < max1;
         }
-        if (first == other.first) {
-            return second < other.second;
-        }
-        return first < other.first;
+        return min0 < min1;
     }
 };
 
-- 
2.43.0


From a0f6bf375d1227c20f71650ec507664540648690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:58 +0000
Subject: [PATCH 005/101] fix: allow bumping a component when all components
 are modified

---
 include/edyn/networking/comp/exporter_modified_components.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edyn/networking/comp/exporter_modified_components.hpp b/include/edyn/networking/comp/exporter_modified_components.hpp
index 426f24b..0ec1dfd 100644
--- a/include/edyn/networking/comp/exporter_modified_components.hpp
+++ b/include/edyn/networking/comp/exporter_modified_components.hpp
@@ -28,7 +28,6 @@ struct exporter_modified_components {
     }
 
     void bump_index(uint16_t index) {
-        EDYN_ASSERT(count < NumComponents);
         bool found = false;
 
         for (unsigned i = 0; i < count; ++i) {
@@ -39,6 +38,7 @@ struct exporter_modified_components {
         }
 
         if (!found) {
+            EDYN_ASSERT(count < NumComponents);
             entry[count++] = {index, duration};
         }
     }
-- 
2.43.0


From 0d00a065337466342095338672ea4e3e7f13d545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:28 +0000
Subject: [PATCH 006/101] fix: report the right number and pairs of closest
 points of segments

---
 src/edyn/math/geom.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index ab6f911..f3aeadf 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -84,6 +84,10 @@ scalar closest_point_segment_segment(const vector3 &p1, const vector3 &q1,
     const auto e = dot(d2, d2); // Squared length of segment `s2`.
     const auto f = dot(d2, r);
 
+    if (num_points != nullptr) {
+        *num_points = 1;
+    }
+
     // Check if either or both segments degenerate into points.
     if (a <= EDYN_EPSILON && e <= EDYN_EPSILON) {
         // Both segments degenerate into points.
@@ -115,9 +119,6 @@ scalar closest_point_segment_segment(const vector3 &p1, const vector3 &q1,
             // are the infinite lines passing through `s1` and `s2` respectively.
             if (denom > EDYN_EPSILON) {
                 s = clamp_unit((b * f - c * e) / denom);
-                if (num_points != nullptr) {
-                    *num_points = 1;
-                }
             } else if (num_points != nullptr) {
                 auto r1 = p1 - q2;
                 auto f1 = dot(d1, r1);
@@ -126,19 +127,14 @@ scalar closest_point_segment_segment(const vector3 &p1, const vector3 &q1,
                 s   = clamp_unit(std::min(-c * a_inv, -f1 * a_inv));
                 *sp = clamp_unit(std::max(-c * a_inv, -f1 * a_inv));
 
-                auto r2 = p2 - q1;
-                auto f2 = dot(d2, r2);
-                auto e_inv = 1 / e;
-
-                t   = clamp_unit(std::min(-f * e_inv, -f2 * e_inv));
-                *tp = clamp_unit(std::max(-f * e_inv, -f2 * e_inv));
+                // The point on `s2` that corresponds to `s1(sp)`, which is also
+                // correct if the segments point in opposite directions.
+                *tp = clamp_unit((b * *sp + f) / e);
 
                 if (std::abs(s - *sp) > EDYN_EPSILON) {
                     *num_points = 2;
                     *c1p = p1 + d1 * *sp;
                     *c2p = p2 + d2 * *tp;
-                } else {
-                    *num_points = 1;
                 }
             } else {
                 s = 0;
-- 
2.43.0


From 1f247327cbc326f7939d29f3386a26577095d305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:28 +0000
Subject: [PATCH 007/101] fix: return the distance to the closest face of a box

---
 src/edyn/math/geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index f3aeadf..cce2cd6 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -1034,7 +1034,7 @@ scalar closest_point_box_inside(const vector3 &half_extent, const vector3 &p, ve
         normal = vector3{0, 0, -1};
     }
 
-    return dist;
+    return min_dist;
 }
 
 size_t intersect_line_aabb(const vector2 &p0, const vector2 &p1,
-- 
2.43.0


From a7b9ceeb1bf76978e0bcc389a19ccf879228f937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:47 +0000
Subject: [PATCH 008/101] fix: compute the parameter where a line is tangent to
 a circle

---
 src/edyn/math/geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index cce2cd6..8fbb5db 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -206,7 +206,7 @@ size_t intersect_line_circle(const vector2 &p0, const vector2 &p1,
         return 2;
     }
 
-    s0 = -dp * dl2;
+    s0 = -dp / dl2;
     return 1;
 }
 
-- 
2.43.0


From a04d3a585472fa5f7ba61942f737fe6a28885287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:03 +0000
Subject: [PATCH 009/101] fix: do not intersect concentric circles of different
 radius

---
 src/edyn/math/geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 8fbb5db..d5f139b 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -444,7 +444,7 @@ size_t intersect_circle_circle(const vector2 &posA, scalar radiusA,
     auto rsum = radiusA + radiusB;
     auto rsub = radiusA - radiusB;
 
-    if (lu2 < EDYN_EPSILON && rsub < EDYN_EPSILON) {
+    if (lu2 < EDYN_EPSILON && std::abs(rsub) < EDYN_EPSILON) {
         // Concentric circles of same radius.
         res0 = posA + vector2_x * radiusA;
         res1 = posB - vector2_x * radiusB;
-- 
2.43.0


From 9c0c9853b486b763bd6af6581f03784fe68b38a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:41 +0000
Subject: [PATCH 010/101] fix: make the circle-line closest point search
 descend to a minimum

---
 src/edyn/math/geom.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index d5f139b..6f867b7 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -329,12 +329,17 @@ scalar closest_point_circle_line(
     // Intersect line with the circle plane and use the angle of this point as the
     // initial value.
     const auto q_plane = q0 - (q0[norm_idx] / qv[norm_idx]) * qv;
-    const auto initial_theta = std::atan2(q_plane[tan_idx0], q_plane[tan_idx1]);
+    const auto q_plane_len_sqr = square(q_plane[tan_idx0]) + square(q_plane[tan_idx1]);
+    // If the line crosses the center of the circle, the closest points are found
+    // along the projection of the line on the circle plane.
+    const auto q_initial = q_plane_len_sqr > EDYN_EPSILON ? q_plane : qv;
+    const auto initial_theta = std::atan2(q_initial[tan_idx0], q_initial[tan_idx1]);
     const auto qv_len_sqr_inv = scalar(1) / qv_len_sqr;
 
     // Newton-Raphson iterations.
     auto theta = initial_theta;
     size_t max_iterations = 20;
+    const auto max_delta = pi * scalar(0.25);
 
     for (size_t i = 0; i < max_iterations; ++i) {
         auto sin_theta = std::sin(theta);
@@ -377,9 +382,11 @@ scalar closest_point_circle_line(
         auto d_f_theta = dot(d_theta, d_d_theta);
         auto dd_f_theta = dot(d_d_theta, d_d_theta) + dot(dd_d_theta, d_theta);
 
-        EDYN_ASSERT(dd_f_theta > 0 || dd_f_theta < 0);
-
-        auto delta = d_f_theta / dd_f_theta;
+        // Take the magnitude of the second derivative to always descend towards
+        // a minimum and limit the step because it can be arbitrarily close to zero.
+        auto delta = std::abs(d_f_theta) < max_delta * std::abs(dd_f_theta) ?
+                     d_f_theta / std::abs(dd_f_theta) :
+                     std::copysign(max_delta, d_f_theta);
         theta -= delta;
 
         // Stop when the delta is smaller than a degree.
-- 
2.43.0


From 81603ebbba6103195243064bf4972d34ea827342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:02 +0000
Subject: [PATCH 011/101] fix: find the closest points of circles with
 different axes

---
 src/edyn/math/geom.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 6f867b7..6fd3b55 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -565,9 +565,7 @@ scalar closest_point_circle_circle(
                 dirA[tan_idxA0] = dir.x;
                 dirA[tan_idxA1] = dir.y;
 
-                dirB[norm_idxB] = 0;
-                dirB[tan_idxB0] = dir.x;
-                dirB[tan_idxB1] = dir.y;
+                dirB = dirA; // Both are in A's space.
 
                 // Reverse it based on which region the circles are located so they
                 // point in the right direction, towards closest point.
@@ -579,10 +577,10 @@ scalar closest_point_circle_circle(
                 return distance_sqr(rA0, rB0);
             } else {
                 // Concentric. Return a pair of points that lie on the same line
-                // crossing the center of the circles, which are both at the
-                // origin in this case.
+                // crossing the center of the circles, which are both on the
+                // axis of circle A in this case.
                 rA0 = to_world_space(tanA * radiusA, posA, ornA);
-                rB0 = to_world_space(tanA * radiusB, posA, ornA);
+                rB0 = to_world_space(posB_in_A + tanA * radiusB, posA, ornA);
                 return distance_sqr(rA0, rB0);
             }
         }
@@ -604,7 +602,7 @@ scalar closest_point_circle_circle(
     auto ornB_in_A = conjugate(ornA) * ornB;
     vector3 u, v;
 
-    switch (axisA) {
+    switch (axisB) {
     case coordinate_axis::x:
         u = quaternion_z(ornB_in_A);
         v = quaternion_y(ornB_in_A);
@@ -624,11 +622,12 @@ scalar closest_point_circle_circle(
     vector3 sup_neg = support_point_circle(posB_in_A, ornB_in_A, radiusB, axisB, -coordinate_axis_vector(axisA));
     vector3 sup = std::abs(sup_pos[norm_idxA]) < std::abs(sup_neg[norm_idxA]) ? sup_pos : sup_neg;
     auto sup_in_B = to_object_space(sup, posB_in_A, ornB_in_A);
-    auto initial_phi = std::atan2(sup_in_B[tan_idxA0], sup_in_B[tan_idxA1]);
+    auto initial_phi = std::atan2(sup_in_B[tan_idxB0], sup_in_B[tan_idxB1]);
 
     // Newton-Raphson iterations.
     auto phi = initial_phi;
     size_t max_iterations = 20;
+    const auto max_delta = pi * scalar(0.25);
 
     for (size_t i = 0; i < max_iterations; ++i) {
         auto cos_phi = std::cos(phi);
@@ -670,9 +669,11 @@ scalar closest_point_circle_circle(
         auto d_f_phi = dot(d_phi, d_d_phi);
         auto dd_f_phi = dot(d_d_phi, d_d_phi) + dot(dd_d_phi, d_phi);
 
-        EDYN_ASSERT(dd_f_phi > 0 || dd_f_phi < 0);
-
-        auto delta = d_f_phi / dd_f_phi;
+        // Take the magnitude of the second derivative to always descend towards
+        // a minimum and limit the step because it can be arbitrarily close to zero.
+        auto delta = std::abs(d_f_phi) < max_delta * std::abs(dd_f_phi) ?
+                     d_f_phi / std::abs(dd_f_phi) :
+                     std::copysign(max_delta, d_f_phi);
         phi -= delta;
 
         // Stop when the delta is smaller than a degree.
-- 
2.43.0


From 7c180e6b7ba16eb102cfb98f6bc0c379109e3900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:01 +0000
Subject: [PATCH 012/101] fix: do not let the circle closest point searches
 stop at a maximum

---
 src/edyn/math/geom.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 6fd3b55..73443a8 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -382,11 +382,10 @@ scalar closest_point_circle_line(
         auto d_f_theta = dot(d_theta, d_d_theta);
         auto dd_f_theta = dot(d_d_theta, d_d_theta) + dot(dd_d_theta, d_theta);
 
-        // Take the magnitude of the second derivative to always descend towards
-        // a minimum and limit the step because it can be arbitrarily close to zero.
-        auto delta = std::abs(d_f_theta) < max_delta * std::abs(dd_f_theta) ?
-                     d_f_theta / std::abs(dd_f_theta) :
-                     std::copysign(max_delta, d_f_theta);
+        // Newton's method would move towards a maximum if the second derivative
+        // is negative. Always descend and limit the step.
+        auto delta = std::abs(d_f_theta) < max_delta * dd_f_theta ?
+                     d_f_theta / dd_f_theta : std::copysign(max_delta, d_f_theta);
         theta -= delta;
 
         // Stop when the delta is smaller than a degree.
@@ -669,11 +668,10 @@ scalar closest_point_circle_circle(
         auto d_f_phi = dot(d_phi, d_d_phi);
         auto dd_f_phi = dot(d_d_phi, d_d_phi) + dot(dd_d_phi, d_phi);
 
-        // Take the magnitude of the second derivative to always descend towards
-        // a minimum and limit the step because it can be arbitrarily close to zero.
-        auto delta = std::abs(d_f_phi) < max_delta * std::abs(dd_f_phi) ?
-                     d_f_phi / std::abs(dd_f_phi) :
-                     std::copysign(max_delta, d_f_phi);
+        // Newton's method would move towards a maximum if the second derivative
+        // is negative. Always descend and limit the step.
+        auto delta = std::abs(d_f_phi) < max_delta * dd_f_phi ?
+                     d_f_phi / dd_f_phi : std::copysign(max_delta, d_f_phi);
         phi -= delta;
 
         // Stop when the delta is smaller than a degree.
-- 
2.43.0


From 5d44ae95ba248d700a56a40dc47eb24b2a0aacb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:39 +0000
Subject: [PATCH 013/101] fix: search all local minima of the distance between
 circles

---
 src/edyn/math/geom.cpp | 135 +++++++++++++++++++++++++----------------
 1 file changed, 82 insertions(+), 53 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 73443a8..3300d26 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -6,6 +6,7 @@
 #include "edyn/math/transform.hpp"
 #include "edyn/math/triangle.hpp"
 #include <algorithm>
+#include <array>
 
 namespace edyn {
 
@@ -616,67 +617,95 @@ scalar closest_point_circle_circle(
         break;
     }
 
-    // Use angle of support point of B closest on A's plane as initial angle.
-    vector3 sup_pos = support_point_circle(posB_in_A, ornB_in_A, radiusB, axisB, coordinate_axis_vector(axisA));
-    vector3 sup_neg = support_point_circle(posB_in_A, ornB_in_A, radiusB, axisB, -coordinate_axis_vector(axisA));
-    vector3 sup = std::abs(sup_pos[norm_idxA]) < std::abs(sup_neg[norm_idxA]) ? sup_pos : sup_neg;
-    auto sup_in_B = to_object_space(sup, posB_in_A, ornB_in_A);
-    auto initial_phi = std::atan2(sup_in_B[tan_idxB0], sup_in_B[tan_idxB1]);
+    // Distance squared between the point at an angle φ and the circle A.
+    auto eval_f = [&](scalar phi) {
+        auto p_phi = posB_in_A + (u * std::cos(phi) + v * std::sin(phi)) * radiusB;
+        auto rho = std::sqrt(square(p_phi[tan_idxA0]) + square(p_phi[tan_idxA1]));
+        return square(p_phi[norm_idxA]) + square(rho - radiusA);
+    };
 
     // Newton-Raphson iterations.
-    auto phi = initial_phi;
-    size_t max_iterations = 20;
-    const auto max_delta = pi * scalar(0.25);
-
-    for (size_t i = 0; i < max_iterations; ++i) {
-        auto cos_phi = std::cos(phi);
-        auto sin_phi = std::sin(phi);
-
-        auto p_phi = posB_in_A + (u * cos_phi + v * sin_phi) * radiusB;
-        auto d_p_phi = (u * -sin_phi + v * cos_phi) * radiusB;
-        auto dd_p_phi = (u * -cos_phi + v * -sin_phi) * radiusB;
-
-        auto theta = std::atan2(p_phi[tan_idxA0], p_phi[tan_idxA1]);
-        auto cos_theta = std::cos(theta);
-        auto sin_theta = std::sin(theta);
-
-        vector3 q_theta, d_q_theta, dd_q_theta;
-
-        q_theta[norm_idxA] = 0;
-        q_theta[tan_idxA0] = sin_theta * radiusA;
-        q_theta[tan_idxA1] = cos_theta * radiusA;
+    auto refine = [&](scalar phi) {
+        const size_t max_iterations = 20;
+        const auto max_delta = pi / scalar(16);
+
+        for (size_t i = 0; i < max_iterations; ++i) {
+            auto cos_phi = std::cos(phi);
+            auto sin_phi = std::sin(phi);
+
+            auto p_phi = posB_in_A + (u * cos_phi + v * sin_phi) * radiusB;
+            auto d_p_phi = (u * -sin_phi + v * cos_phi) * radiusB;
+            auto dd_p_phi = (u * -cos_phi + v * -sin_phi) * radiusB;
+
+            auto theta = std::atan2(p_phi[tan_idxA0], p_phi[tan_idxA1]);
+            auto cos_theta = std::cos(theta);
+            auto sin_theta = std::sin(theta);
+
+            vector3 q_theta, d_q_theta;
+
+            q_theta[norm_idxA] = 0;
+            q_theta[tan_idxA0] = sin_theta * radiusA;
+            q_theta[tan_idxA1] = cos_theta * radiusA;
+
+            // Derivative of q(θ(φ)) with respect to φ.
+            auto rho = std::sqrt(square(p_phi[tan_idxA0]) + square(p_phi[tan_idxA1]));
+            auto tangent_speed = d_p_phi[tan_idxA0] * cos_theta - d_p_phi[tan_idxA1] * sin_theta;
+            auto d_theta_r = rho > EDYN_EPSILON ? tangent_speed * radiusA / rho : scalar(0);
+
+            d_q_theta[norm_idxA] = 0;
+            d_q_theta[tan_idxA0] = cos_theta * d_theta_r;
+            d_q_theta[tan_idxA1] = -sin_theta * d_theta_r;
+
+            // Function d(φ) is the vector connecting the closest points and its
+            // first derivative.
+            auto d_phi = p_phi - q_theta;
+            auto d_d_phi = d_p_phi - d_q_theta;
+
+            // Function f(φ) = d · d / 2 gives us a scalar proportional to the
+            // length of d(φ). Since d(φ) is orthogonal to q'(φ), f' = d · p'.
+            // First derivative f' = d · p'
+            // Second derivative f" = d'· p' + d · p"
+            // auto f_phi = scalar(0.5) * dot(d_phi, d_phi);
+            auto d_f_phi = dot(d_phi, d_p_phi);
+            auto dd_f_phi = dot(d_d_phi, d_p_phi) + dot(d_phi, dd_p_phi);
+
+            // Newton's method would move towards a maximum if the second derivative
+            // is negative. Always descend and limit the step.
+            auto delta = std::abs(d_f_phi) < max_delta * dd_f_phi ?
+                         d_f_phi / dd_f_phi : std::copysign(max_delta, d_f_phi);
+            phi -= delta;
+
+            // Stop when the delta is smaller than a degree.
+            if (std::abs(delta) < pi * scalar(1) / scalar(180)) {
+                break;
+            }
+        }
 
-        d_q_theta[norm_idxA] = 0;
-        d_q_theta[tan_idxA0] = cos_theta * radiusA;
-        d_q_theta[tan_idxA1] = -sin_theta * radiusA;
+        return phi;
+    };
 
-        dd_q_theta[norm_idxA] = 0;
-        dd_q_theta[tan_idxA0] = -sin_theta * radiusA;
-        dd_q_theta[tan_idxA1] = -cos_theta * radiusA;
+    // There can be multiple local minima. Take a few samples and search from
+    // each sample that is smaller than its neighbors.
+    constexpr size_t num_samples = 32;
+    std::array<scalar, num_samples> samples;
 
-        // Function d(φ) is the vector connecting the closest points.
-        // First and second derivates follow.
-        auto d_phi = p_phi - q_theta;
-        auto d_d_phi = d_p_phi - d_q_theta;
-        auto dd_d_phi = dd_p_phi - dd_q_theta;
+    for (size_t i = 0; i < num_samples; ++i) {
+        samples[i] = eval_f(pi2 * scalar(i) / scalar(num_samples));
+    }
 
-        // Function f(φ) = d · d / 2 gives us a scalar proportional to the
-        // length of d(φ).
-        // First derivative f' = d'· d
-        // Second derivative f" = d'· d + d"· d
-        // auto f_phi = scalar(0.5) * dot(d_phi, d_phi);
-        auto d_f_phi = dot(d_phi, d_d_phi);
-        auto dd_f_phi = dot(d_d_phi, d_d_phi) + dot(dd_d_phi, d_phi);
+    auto phi = scalar(0);
+    auto min_f_phi = EDYN_SCALAR_MAX;
 
-        // Newton's method would move towards a maximum if the second derivative
-        // is negative. Always descend and limit the step.
-        auto delta = std::abs(d_f_phi) < max_delta * dd_f_phi ?
-                     d_f_phi / dd_f_phi : std::copysign(max_delta, d_f_phi);
-        phi -= delta;
+    for (size_t i = 0; i < num_samples; ++i) {
+        if (samples[i] <= samples[(i + 1) % num_samples] &&
+            samples[i] <= samples[(i + num_samples - 1) % num_samples]) {
+            auto local_phi = refine(pi2 * scalar(i) / scalar(num_samples));
+            auto f_phi = eval_f(local_phi);
 
-        // Stop when the delta is smaller than a degree.
-        if (std::abs(delta) < pi * scalar(1) / scalar(180)) {
-            break;
+            if (f_phi < min_f_phi) {
+                min_f_phi = f_phi;
+                phi = local_phi;
+            }
         }
     }
 
-- 
2.43.0


From d80b8307642c6b8eeb865595a027fc86fdf4fc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:29 +0000
Subject: [PATCH 014/101] fix: intersect lines that pass through the corners of
 an AABB

---
 src/edyn/math/geom.cpp | 73 +++++++-----------------------------------
 1 file changed, 11 insertions(+), 62 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 3300d26..c31811a 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -1102,70 +1102,19 @@ size_t intersect_line_aabb(const vector2 &p0, const vector2 &p1,
         return num_points;
     }
 
-    /* Left edge. */ {
-        auto t = e.x / d.x;
-        auto qy = p0.y + d.y * t;
-
-        if (qy >= aabb_min.y && qy < aabb_max.y) {
-            s0 = t;
-            ++num_points;
-        }
-    }
-
-    /* Right edge. */ {
-        auto t = f.x / d.x;
-        auto qy = p0.y + d.y * t;
-
-        if (qy > aabb_min.y && qy <= aabb_max.y) {
-            if (num_points == 0) {
-                s0 = t;
-                ++num_points;
-            } else if (std::abs(t - s0) > EDYN_EPSILON) {
-                s1 = t;
-                ++num_points;
-            }
-        }
-    }
-
-    if (num_points == 2) {
-        return num_points;
-    }
-
-    /* Bottom edge. */ {
-        auto t = e.y / d.y;
-        auto qx = p0.x + d.x * t;
-
-        if (qx >= aabb_min.x && qx < aabb_max.x) {
-            if (num_points == 0) {
-                s0 = t;
-                ++num_points;
-            } else if (std::abs(t - s0) > EDYN_EPSILON) {
-                s1 = t;
-                ++num_points;
-            }
-        }
-    }
-
-    if (num_points == 2) {
-        return num_points;
-    }
-
-    /* Top edge. */ {
-        auto t = f.y / d.y;
-        auto qx = p0.x + d.x * t;
-
-        if (qx > aabb_min.x && qx <= aabb_max.x) {
-            if (num_points == 0) {
-                s0 = t;
-                ++num_points;
-            } else if (std::abs(t - s0) > EDYN_EPSILON) {
-                s1 = t;
-                ++num_points;
-            }
-        }
+    // Intersect the intervals of the line that lie between the vertical and
+    // horizontal edges. Testing each edge separately would miss intersections
+    // near the corners.
+    auto x0 = e.x / d.x, x1 = f.x / d.x;
+    auto y0 = e.y / d.y, y1 = f.y / d.y;
+    s0 = std::max(std::min(x0, x1), std::min(y0, y1));
+    s1 = std::min(std::max(x0, x1), std::max(y0, y1));
+
+    if (s0 > s1) {
+        return 0;
     }
 
-    return num_points;
+    return s1 - s0 > EDYN_EPSILON ? 2 : 1;
 }
 
 bool point_in_polygonal_prism(const std::vector<vector3> &vertices,
-- 
2.43.0


From 38b5077da1b42ec3821dcffec06f938b5b412447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:57 +0000
Subject: [PATCH 015/101] fix: replace the middle one of three collinear
 contact points

---
 src/edyn/math/geom.cpp | 44 ++++++++----------------------------------
 1 file changed, 8 insertions(+), 36 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index c31811a..49aba04 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -945,45 +945,17 @@ insertion_point_result insertion_point_index(const vector3 *points,
                 return {point_insertion_type::append, num_points++};
             }
         } else {
-            // Points are collinear. Replace point in the middle.
-            auto d0 = dot(points[1] - points[0], points[2] - points[0]);
-
-            if (d0 > 0 && d0 < 1) {
-                // Point 1 is between 0 and 2.
-                return {point_insertion_type::replace, 1};
-            }
-
-            auto d1 = dot(points[0] - points[1], points[2] - points[1]);
-
-            if (d1 > 0 && d1 < 1) {
-                // Point 0 is between 1 and 2.
-                return {point_insertion_type::replace, 0};
-            }
-
-            auto d2 = dot(points[2] - points[0], points[1] - points[0]);
-
-            if (d2 > 0 && d2 < 1) {
-                // Point 2 is between 0 and 1.
-                return {point_insertion_type::replace, 2};
-            }
-
-            // Points coincide. Find the pair of points and replace one of them.
+            // Points are collinear. Replace the point in the middle, i.e. the one
+            // opposite to the longest edge.
             std::array<scalar, 3> dist_sqr;
-            dist_sqr[0] = distance_sqr(points[0], points[1]);
-            dist_sqr[1] = distance_sqr(points[1], points[2]);
-            dist_sqr[2] = distance_sqr(points[2], points[0]);
+            dist_sqr[0] = distance_sqr(points[1], points[2]);
+            dist_sqr[1] = distance_sqr(points[2], points[0]);
+            dist_sqr[2] = distance_sqr(points[0], points[1]);
 
-            size_t min_dist_idx = SIZE_MAX;
-            auto min_dist_sqr = EDYN_SCALAR_MAX;
-
-            for (size_t i = 0; i < dist_sqr.size(); ++i) {
-                if (dist_sqr[i] < min_dist_sqr) {
-                    min_dist_sqr = dist_sqr[i];
-                    min_dist_idx = i;
-                }
-            }
+            auto max_dist_it = std::max_element(dist_sqr.begin(), dist_sqr.end());
+            auto index = static_cast<size_t>(std::distance(dist_sqr.begin(), max_dist_it));
 
-            return {point_insertion_type::replace, min_dist_idx};
+            return {point_insertion_type::replace, index};
         }
     }
 
-- 
2.43.0


From 3be7789d30fd308bfea7f2f20308f3b1c739c796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:57 +0000
Subject: [PATCH 016/101] fix: measure the angle between quaternions along the
 shortest path

---
 src/edyn/math/quaternion.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/edyn/math/quaternion.cpp b/src/edyn/math/quaternion.cpp
index 75b8553..19f7730 100644
--- a/src/edyn/math/quaternion.cpp
+++ b/src/edyn/math/quaternion.cpp
@@ -1,5 +1,7 @@
 #include "edyn/math/quaternion.hpp"
 #include "edyn/math/geom.hpp"
+#include <algorithm>
+#include <cmath>
 
 namespace edyn {
 
@@ -40,8 +42,10 @@ quaternion shortest_arc(const vector3 &v0, const vector3 &v1) noexcept {
 scalar angle_between(const quaternion &q0, const quaternion &q1) noexcept {
     auto s = std::sqrt(length_sqr(q0) * length_sqr(q1));
     EDYN_ASSERT(std::abs(s) > EDYN_EPSILON);
-    auto d = dot(q0, q1);
-    return std::acos(d / s) * scalar(2);
+    // `q` and `-q` are the same rotation. The ratio can be slightly greater than
+    // one due to rounding.
+    auto d = std::abs(dot(q0, q1));
+    return std::acos(std::min(d / s, scalar(1))) * scalar(2);
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From 388fff51f38a0598ac8550a57db1be16c93d4d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:21 +0000
Subject: [PATCH 017/101] fix: find the closest point of a polygon from every
 point outside of it

A point on the border between the Voronoi regions of an edge and a vertex,
or off an acute vertex, was reported to be inside the polygon.
---
 src/edyn/util/shape_util.cpp | 49 +++++++++++++-----------------------
 1 file changed, 18 insertions(+), 31 deletions(-)

diff --git a/src/edyn/util/shape_util.cpp b/src/edyn/util/shape_util.cpp
index 6ff16de..f2114d2 100644
--- a/src/edyn/util/shape_util.cpp
+++ b/src/edyn/util/shape_util.cpp
@@ -240,13 +240,13 @@ bool sort_triangle_ccw(vector2 &v0, vector2 &v1, vector2 &v2) {
 bool closest_point_convex_polygon(const std::vector<vector2> &vertices,
                                   const std::vector<size_t> &indices,
                                   const vector2 &p, vector2 &closest) {
-    // Find Voronoi region which contains `p`.
+    auto outside = false;
+    auto min_dist_sqr = EDYN_SCALAR_MAX;
+
     for (size_t i = 0; i < indices.size(); ++i) {
         auto j = (i + 1) % indices.size();
-        auto i0 = indices[i];
-        auto i1 = indices[j];
-        auto &v0 = vertices[i0];
-        auto &v1 = vertices[i1];
+        auto &v0 = vertices[indices[i]];
+        auto &v1 = vertices[indices[j]];
 
         auto e0 = v1 - v0;
         // Vertices are oriented counter-clockwise. Rotate edge clockwise
@@ -258,35 +258,22 @@ bool closest_point_convex_polygon(const std::vector<vector2> &vertices,
             continue;
         }
 
-        if (dot(p - v0, e0) > 0) {
-            // Point is past the first boundary of the Voronoi region of
-            // this edge.
-            if (dot(p - v1, e0) < 0) {
-                // Point is before the second boundary of the Voronoi region
-                // of this edge, thus this is the Voronoi region where it belongs.
-                auto t = dot(p - v0, e0) / dot(e0, e0);
-                closest = lerp(v0, v1, t);
-                return true;
-            } else {
-                // Point is past the second boundary of the Voronoi region
-                // of this edge. If it's also before the first boundary of
-                // the Voronoi region on the next edge, it means the Voronoi
-                // region of the vertex connecting these two edges contains
-                // the point.
-                auto k = (i + 2) % indices.size();
-                auto i2 = indices[k];
-                auto &v2 = vertices[i2];
-                auto e1 = v2 - v1;
-
-                if (dot(p - v1, e1) < 0) {
-                    closest = v1;
-                    return true;
-                }
-            }
+        // Point is outside the polygon. The closest point lies on one of the
+        // edges that have the point in front of them.
+        outside = true;
+
+        auto len_sqr = dot(e0, e0);
+        auto t = len_sqr > 0 ? clamp_unit(dot(p - v0, e0) / len_sqr) : scalar(0);
+        auto q = lerp(v0, v1, t);
+        auto dist_sqr = distance_sqr(p, q);
+
+        if (dist_sqr < min_dist_sqr) {
+            min_dist_sqr = dist_sqr;
+            closest = q;
         }
     }
 
-    return false;
+    return outside;
 }
 
 bool closest_point_polygon(const support_polygon &polygon,
-- 
2.43.0


From 152e5af6de02d80e19e22d3565b2cbf8526d15bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:21 +0000
Subject: [PATCH 018/101] fix: test all edges in point_inside_convex_polygon

---
 src/edyn/util/shape_util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/edyn/util/shape_util.cpp b/src/edyn/util/shape_util.cpp
index f2114d2..ae74395 100644
--- a/src/edyn/util/shape_util.cpp
+++ b/src/edyn/util/shape_util.cpp
@@ -207,9 +207,9 @@ std::vector<size_t> calculate_convex_hull(const std::vector<vector2> &points, sc
 bool point_inside_convex_polygon(const std::vector<vector2> &vertices, const vector2 &point) {
     EDYN_ASSERT(vertices.size() > 2);
 
-    for (size_t i = 0; i < vertices.size() - 1; ++i) {
+    for (size_t i = 0; i < vertices.size(); ++i) {
         auto d = point - vertices[i];
-        auto e = vertices[i + 1] - vertices[i];
+        auto e = vertices[(i + 1) % vertices.size()] - vertices[i];
         // Vertices are oriented counter-clockwise. Rotate edge clockwise
         // to obtain a vector that points outside the convex polygon.
         auto n = -orthogonal(e);
-- 
2.43.0


From 604db46cd2b0328b280718d8cfa2a6119d3ea333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:26 +0000
Subject: [PATCH 019/101] fix: report the greatest projection of a triangle
 edge

The projection was left at that of the other vertex if the third vertex
was the furthest and formed an edge with it.
---
 src/edyn/math/triangle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/edyn/math/triangle.cpp b/src/edyn/math/triangle.cpp
index f338737..90d252e 100644
--- a/src/edyn/math/triangle.cpp
+++ b/src/edyn/math/triangle.cpp
@@ -66,8 +66,9 @@ void get_triangle_support_feature(const triangle_vertices &vertices,
                     // If this is the second vertex (index 1), the previous could
                     // only have been vertex 0, thus this must be edge 0.
                     tri_feature_index = 0;
-                    projection = std::max(proj_i, projection);
                 }
+
+                projection = std::max(proj_i, projection);
             } else if (tri_feature == triangle_feature::edge) {
                 // If the maximum feature was already an edge, adding this
                 // vertex to it makes it a face.
-- 
2.43.0


From c4747abe6e63984cfe22429c706abe1384162c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:10 +0000
Subject: [PATCH 020/101] fix: interpolate linearly along the edges of a
 triangle mesh

The fraction of a point along an edge was the ratio of the squared
distances, i.e. 1/4 in the middle of the edge.
---
 src/edyn/shapes/triangle_mesh.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edyn/shapes/triangle_mesh.cpp b/src/edyn/shapes/triangle_mesh.cpp
index 0c47004..b18b860 100644
--- a/src/edyn/shapes/triangle_mesh.cpp
+++ b/src/edyn/shapes/triangle_mesh.cpp
@@ -170,7 +170,7 @@ scalar triangle_mesh::get_edge_friction(size_t edge_idx, scalar fraction) const
 
 scalar triangle_mesh::get_edge_friction(size_t edge_idx, vector3 point) const {
     auto [v0, v1] = get_edge_vertices(edge_idx);
-    auto fraction = distance_sqr(point, v0) / distance_sqr(v1, v0);
+    auto fraction = dot(point - v0, v1 - v0) / distance_sqr(v1, v0);
     return get_edge_friction(edge_idx, fraction);
 }
 
@@ -198,7 +198,7 @@ scalar triangle_mesh::get_edge_restitution(size_t edge_idx, scalar fraction) con
 
 scalar triangle_mesh::get_edge_restitution(size_t edge_idx, vector3 point) const {
     auto [v0, v1] = get_edge_vertices(edge_idx);
-    auto fraction = distance_sqr(point, v0) / distance_sqr(v1, v0);
+    auto fraction = dot(point - v0, v1 - v0) / distance_sqr(v1, v0);
     return get_edge_restitution(edge_idx, fraction);
 }
 
@@ -229,7 +229,7 @@ std::array<triangle_mesh::material_influence, 2> triangle_mesh::get_edge_materia
 
 std::array<triangle_mesh::material_influence, 2> triangle_mesh::get_edge_material_id(size_t edge_idx, vector3 point) const {
     auto [v0, v1] = get_edge_vertices(edge_idx);
-    auto fraction = distance_sqr(point, v0) / distance_sqr(v1, v0);
+    auto fraction = dot(point - v0, v1 - v0) / distance_sqr(v1, v0);
     return get_edge_material_id(edge_idx, fraction);
 }
 
-- 
2.43.0


From 8649aa9bc10c669cf5b71573a75d1844638c6fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:20 +0000
Subject: [PATCH 021/101] fix: copy archive bytes instead of dereferencing
 unaligned pointers

Values are packed without padding in archives, hence accessing them via a
pointer of their type is undefined behavior. A boolean read from an arbitrary
byte must also be normalized.
---
 include/edyn/serialization/memory_archive.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/edyn/serialization/memory_archive.hpp b/include/edyn/serialization/memory_archive.hpp
index eec77e2..6136f71 100644
--- a/include/edyn/serialization/memory_archive.hpp
+++ b/include/edyn/serialization/memory_archive.hpp
@@ -3,6 +3,7 @@
 
 #include <cstdint>
 #include <cstddef>
+#include <cstring>
 #include <type_traits>
 #include <vector>
 #include <array>
@@ -58,8 +59,14 @@ protected:
             return;
         }
 
-        auto* buff = reinterpret_cast<const T*>(m_buffer + m_position);
-        t = *buff;
+        // Values are not necessarily aligned in the buffer.
+        if constexpr(std::is_same_v<T, bool>) {
+            // Any byte could be present in the input, but not any byte is a valid bool.
+            t = m_buffer[m_position] != 0;
+        } else {
+            std::memcpy(&t, m_buffer + m_position, sizeof(T));
+        }
+
         m_position += sizeof(T);
     }
 
@@ -110,8 +117,7 @@ protected:
     void write_bytes(const T &t) {
         auto idx = m_buffer->size();
         m_buffer->resize(idx + sizeof(T));
-        auto *dest = reinterpret_cast<T*>(&(*m_buffer)[idx]);
-        *dest = t;
+        std::memcpy(&(*m_buffer)[idx], &t, sizeof(T));
     }
 
     buffer_type *m_buffer;
@@ -159,8 +165,7 @@ protected:
             return;
         }
 
-        auto *dest = reinterpret_cast<T*>(m_buffer + m_position);
-        *dest = t;
+        std::memcpy(m_buffer + m_position, &t, sizeof(T));
         m_position += sizeof(T);
     }
 
-- 
2.43.0


From db8802b73ed98d1eb753ff54ab2af162b1e614a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:38 +0000
Subject: [PATCH 022/101] fix: do not alter long containers when writing them
 to an archive

Containers longer than the maximum size that can be represented were truncated
in the caller's instance. Reading a map now replaces its contents and a long map
no longer writes more entries than announced.
---
 include/edyn/serialization/std_s11n.hpp | 28 ++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/edyn/serialization/std_s11n.hpp b/include/edyn/serialization/std_s11n.hpp
index 451604c..741dde3 100644
--- a/include/edyn/serialization/std_s11n.hpp
+++ b/include/edyn/serialization/std_s11n.hpp
@@ -21,7 +21,10 @@ void serialize(Archive &archive, std::string& str) {
     using size_type = uint16_t;
     size_type size = std::min(str.size(), static_cast<size_t>(std::numeric_limits<size_type>::max()));
     archive(size);
-    str.resize(size);
+
+    if constexpr(Archive::is_input::value) {
+        str.resize(size);
+    }
 
     for (size_t i = 0; i < size; ++i) {
         archive(str[i]);
@@ -33,7 +36,10 @@ void serialize(Archive &archive, std::vector<T> &vector) {
     using size_type = uint16_t;
     size_type size = std::min(vector.size(), static_cast<size_t>(std::numeric_limits<size_type>::max()));
     archive(size);
-    vector.resize(size);
+
+    if constexpr(Archive::is_input::value) {
+        vector.resize(size);
+    }
 
     for (size_t i = 0; i < size; ++i) {
         archive(vector[i]);
@@ -45,7 +51,10 @@ void serialize(Archive &archive, std::vector<bool> &vector) {
     using size_type = uint16_t;
     size_type size = std::min(vector.size(), static_cast<size_t>(std::numeric_limits<size_type>::max()));
     archive(size);
-    vector.resize(size);
+
+    if constexpr(Archive::is_input::value) {
+        vector.resize(size);
+    }
 
     // Serialize individual bits.
     using set_type = uint32_t;
@@ -65,7 +74,7 @@ void serialize(Archive &archive, std::vector<bool> &vector) {
             }
             archive(set);
         } else {
-            set_type set;
+            set_type set = 0;
             archive(set);
             for (size_t j = 0; j < count; ++j) {
                 vector[start + j] = (set & (1 << j)) > 0;
@@ -143,7 +152,7 @@ size_t serialization_sizeof(const std::variant<Ts...>& var) {
     size_t content_size;
     std::visit([&content_size](auto &&t) {
         content_size = sizeof(t);
-    });
+    }, var);
     return sizeof(uint8_t) + content_size;
 }
 
@@ -192,13 +201,18 @@ void serialize(Archive &archive, std::map<K, V> &map) {
     archive(size);
 
     if constexpr(Archive::is_input::value) {
-        auto pair = std::pair<K, V>{};
+        map.clear();
         for (size_type i = 0; i < size; ++i) {
+            auto pair = std::pair<K, V>{};
             archive(pair);
-            map.emplace(pair);
+            map.emplace(std::move(pair));
         }
     } else {
         for (auto &pair : map) {
+            if (size-- == 0) {
+                break;
+            }
+
             // Safe to const_cast since it's an output archive thus will only
             // read from arguments.
             auto &first = const_cast<K &>(pair.first);
-- 
2.43.0


From e538711c6bc6a970ceb7272a39ad67f2e9b5dfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:38 +0000
Subject: [PATCH 023/101] fix: include the id when serializing query_entity
 packets

The server puts the id of the query in the response, thus the client could not
associate the response with its query.
---
 include/edyn/networking/packet/query_entity.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edyn/networking/packet/query_entity.hpp b/include/edyn/networking/packet/query_entity.hpp
index 563e01e..273d0eb 100644
--- a/include/edyn/networking/packet/query_entity.hpp
+++ b/include/edyn/networking/packet/query_entity.hpp
@@ -16,6 +16,7 @@ struct query_entity {
 
 template<typename Archive>
 void serialize(Archive &archive, query_entity &packet) {
+    archive(packet.id);
     archive(packet.entities);
 }
 
-- 
2.43.0


From 21ef7957b015577454e0e09225b131687b55e745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:38 +0000
Subject: [PATCH 024/101] fix: include the material id when serializing
 materials

Without it a remote body is always treated as having an unassigned material in
the material mixing table.
---
 include/edyn/comp/material.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edyn/comp/material.hpp b/include/edyn/comp/material.hpp
index dd37ab6..2292d10 100644
--- a/include/edyn/comp/material.hpp
+++ b/include/edyn/comp/material.hpp
@@ -38,6 +38,7 @@ void serialize(Archive &archive, material &m) {
     archive(m.roll_friction);
     archive(m.stiffness);
     archive(m.damping);
+    archive(m.id);
 }
 
 }
-- 
2.43.0


From a69a7ad686fa4d562296273f16781e76f6704a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:38 +0000
Subject: [PATCH 025/101] fix: do not drop actions of long lists when writing
 them to an archive

---
 include/edyn/comp/action_list.hpp               | 5 ++++-
 include/edyn/networking/comp/action_history.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/edyn/comp/action_list.hpp b/include/edyn/comp/action_list.hpp
index 1729ac5..c5a80e4 100644
--- a/include/edyn/comp/action_list.hpp
+++ b/include/edyn/comp/action_list.hpp
@@ -24,7 +24,10 @@ void serialize(Archive &archive, action_list<Action> &list) {
     auto size = static_cast<size_type>(std::min(list.actions.size(),
                                        static_cast<size_t>(std::numeric_limits<size_type>::max())));
     archive(size);
-    list.actions.resize(size);
+
+    if constexpr(Archive::is_input::value) {
+        list.actions.resize(size);
+    }
 
     for (size_type i = 0; i < size; ++i) {
         archive(list.actions[i]);
diff --git a/include/edyn/networking/comp/action_history.hpp b/include/edyn/networking/comp/action_history.hpp
index 93553e5..f86196f 100644
--- a/include/edyn/networking/comp/action_history.hpp
+++ b/include/edyn/networking/comp/action_history.hpp
@@ -68,7 +68,10 @@ void serialize(Archive &archive, action_history &history) {
     size_type size = static_cast<size_type>(std::min(history.entries.size(),
                                             static_cast<size_t>(std::numeric_limits<size_type>::max())));
     archive(size);
-    history.entries.resize(size);
+
+    if constexpr(Archive::is_input::value) {
+        history.entries.resize(size);
+    }
 
     for (size_type i = 0; i < size; ++i) {
         archive(history.entries[i].timestamp);
-- 
2.43.0


From 4d50b617d5ba3b350ee7322e5f323c366960cb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:38 +0000
Subject: [PATCH 026/101] fix: clear remaining entries when reading a
 collision_exclusion

---
 include/edyn/comp/collision_exclusion.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/edyn/comp/collision_exclusion.hpp b/include/edyn/comp/collision_exclusion.hpp
index beb2da4..56a6621 100644
--- a/include/edyn/comp/collision_exclusion.hpp
+++ b/include/edyn/comp/collision_exclusion.hpp
@@ -40,6 +40,12 @@ void serialize(Archive &archive, collision_exclusion &excl) {
     for (unsigned i = 0; i < num_entities; ++i) {
         archive(excl.entity[i]);
     }
+
+    if constexpr(Archive::is_input::value) {
+        for (unsigned i = num_entities; i < collision_exclusion::max_exclusions; ++i) {
+            excl.entity[i] = entt::null;
+        }
+    }
 }
 
 }
-- 
2.43.0


From c5b4645384d7520eb29dea0d8ee6dcd88ea84ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:30 +0000
Subject: [PATCH 027/101] fix: discard pools of unknown component types in
 received snapshots

The component index comes from the network and was used to index a table of
functions without checking.
---
 .../edyn/networking/util/pool_snapshot.hpp    | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/edyn/networking/util/pool_snapshot.hpp b/include/edyn/networking/util/pool_snapshot.hpp
index cca267d..86434a9 100644
--- a/include/edyn/networking/util/pool_snapshot.hpp
+++ b/include/edyn/networking/util/pool_snapshot.hpp
@@ -1,6 +1,7 @@
 #ifndef EDYN_NETWORKING_PACKET_POOL_SNAPSHOT_HPP
 #define EDYN_NETWORKING_PACKET_POOL_SNAPSHOT_HPP
 
+#include <algorithm>
 #include <memory>
 #include <tuple>
 #include <vector>
@@ -26,7 +27,10 @@ void serialize(Archive &archive, pool_snapshot &pool) {
         archive(data);
         auto input = memory_input_archive(data.data(), data.size());
         pool.ptr = (*g_make_pool_snapshot_data)(pool.component_index);
-        pool.ptr->read(input);
+
+        if (pool.ptr) {
+            pool.ptr->read(input);
+        }
     } else {
         auto output = memory_output_archive(data);
         pool.ptr->write(output);
@@ -34,11 +38,28 @@ void serialize(Archive &archive, pool_snapshot &pool) {
     }
 }
 
+template<typename Archive>
+void serialize(Archive &archive, std::vector<pool_snapshot> &pools) {
+    serialize<Archive, pool_snapshot>(archive, pools);
+
+    if constexpr(Archive::is_input::value) {
+        // Discard pools of unknown component types.
+        pools.erase(std::remove_if(pools.begin(), pools.end(),
+                                   [](auto &&pool) { return !pool.ptr; }),
+                    pools.end());
+    }
+}
+
 template<typename... Components>
 auto create_make_pool_snapshot_data_function([[maybe_unused]] std::tuple<Components...>) {
     return [](component_index_type component_index) {
         std::tuple<Components...> components;
         auto ptr = std::unique_ptr<pool_snapshot_data>{};
+
+        if (component_index >= sizeof...(Components)) {
+            return ptr;
+        }
+
         visit_tuple(components, component_index, [&](auto &&c) {
             using CompType = std::decay_t<decltype(c)>;
             ptr.reset(new pool_snapshot_data_impl<CompType>);
-- 
2.43.0


From 722d1a94ad9084f9afdca22501a43623bbfd0786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:25 +0000
Subject: [PATCH 028/101] fix: rebuild the adjacency of a convex mesh from
 scratch

Initializing or deserializing a mesh twice accumulated neighbors and relevant
faces and edges of the previous geometry.
---
 src/edyn/shapes/convex_mesh.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/edyn/shapes/convex_mesh.cpp b/src/edyn/shapes/convex_mesh.cpp
index 649f7df..92f2f72 100644
--- a/src/edyn/shapes/convex_mesh.cpp
+++ b/src/edyn/shapes/convex_mesh.cpp
@@ -172,6 +172,8 @@ void convex_mesh::calculate_edges() {
 }
 
 void convex_mesh::calculate_neighbors() {
+    neighbors_start.clear();
+    neighbor_indices.clear();
     neighbors_start.push_back(0);
     uint32_t neighbor_count = 0;
 
@@ -193,6 +195,9 @@ void convex_mesh::calculate_neighbors() {
 }
 
 void convex_mesh::calculate_relevant_faces() {
+    relevant_faces.clear();
+    relevant_normals.clear();
+
     // Find unique face normals.
     for (size_t face_idx = 0; face_idx < num_faces(); ++face_idx) {
         auto &normal = normals[face_idx];
@@ -209,6 +214,8 @@ void convex_mesh::calculate_relevant_faces() {
 }
 
 void convex_mesh::calculate_relevant_edges() {
+    relevant_edges.clear();
+
     // Find unique edge directions. Parallel edges that point in opposite
     // directions are considered similar since the direction doesn't matter
     // when doing edge vs edge in SAT.
-- 
2.43.0


From 084ea37a694962ea3eb31064867e1429d1234d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:38 +0000
Subject: [PATCH 029/101] fix: do not include the separator in the names of
 objects loaded from obj files

---
 src/edyn/util/shape_io.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/edyn/util/shape_io.cpp b/src/edyn/util/shape_io.cpp
index e5d1e1d..5130786 100644
--- a/src/edyn/util/shape_io.cpp
+++ b/src/edyn/util/shape_io.cpp
@@ -90,8 +90,7 @@ void load_meshes_from_obj_stream(Stream &stream,
                 index_offset += mesh.vertices.size();
                 meshes.emplace_back(std::move(mesh));
             }
-            auto iss = std::istringstream(line.substr(pos_space, line.size() - pos_space));
-            mesh.name = iss.str();
+            mesh.name = line.substr(pos_space + 1);
         } else if (cmd == "v") {
             auto iss = std::istringstream(line.substr(pos_space, line.size() - pos_space));
             auto v = read_vector3(iss);
-- 
2.43.0


From 0ddfc4939566544c321830dabc126b50e6a8ddc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:02 +0000
Subject: [PATCH 030/101] fix: remember the thickness of a paged triangle mesh

---
 src/edyn/shapes/paged_triangle_mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/edyn/shapes/paged_triangle_mesh.cpp b/src/edyn/shapes/paged_triangle_mesh.cpp
index 2a39de5..d621b2b 100644
--- a/src/edyn/shapes/paged_triangle_mesh.cpp
+++ b/src/edyn/shapes/paged_triangle_mesh.cpp
@@ -174,6 +174,8 @@ std::array<triangle_mesh::material_influence, 3> paged_triangle_mesh::get_materi
 }
 
 void paged_triangle_mesh::set_thickness(scalar thickness) {
+    m_thickness = thickness;
+
     for (auto &node : m_cache) {
         auto trimesh = node.trimesh;
 
-- 
2.43.0


From 62fad17e389dca4fc85dd0709c78d37ee22c7851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:59 +0000
Subject: [PATCH 031/101] fix: complete asynchronous tasks of size zero

---
 src/edyn/context/task.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/edyn/context/task.cpp b/src/edyn/context/task.cpp
index c275e14..d0d30f4 100644
--- a/src/edyn/context/task.cpp
+++ b/src/edyn/context/task.cpp
@@ -156,6 +156,14 @@ void parallel_for_async_job_func(job::data_type &data) {
 }
 
 void enqueue_task_default(task_delegate_t task, unsigned size, task_completion_delegate_t completion) {
+    if (size == 0) {
+        // There's nothing to be done. No job would be dispatched.
+        if (completion) {
+            completion();
+        }
+        return;
+    }
+
     auto &dispatcher = job_dispatcher::global();
     auto num_workers = dispatcher.num_workers();
 
-- 
2.43.0


From 82e0070514d3bd19a3ce82370da5caceeeaec48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:15 +0000
Subject: [PATCH 032/101] fix: order the work of parallel tasks before their
 completion and release

---
 src/edyn/context/task.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/edyn/context/task.cpp b/src/edyn/context/task.cpp
index d0d30f4..9ef3f31 100644
--- a/src/edyn/context/task.cpp
+++ b/src/edyn/context/task.cpp
@@ -136,7 +136,7 @@ void parallel_for_async_job_func(job::data_type &data) {
         ctx->task(begin, end);
 
         const auto progress = end - begin;
-        const auto completed = ctx->completed_counter.fetch_add(progress, std::memory_order_relaxed) + progress;
+        const auto completed = ctx->completed_counter.fetch_add(progress, std::memory_order_acq_rel) + progress;
         EDYN_ASSERT(completed <= total);
 
         if (completed == total) {
@@ -147,7 +147,7 @@ void parallel_for_async_job_func(job::data_type &data) {
         }
     }
 
-    auto ref_count = ctx->ref_counter.fetch_sub(1, std::memory_order_relaxed) - 1;
+    auto ref_count = ctx->ref_counter.fetch_sub(1, std::memory_order_acq_rel) - 1;
     EDYN_ASSERT(ref_count >= 0);
 
     if (ref_count == 0) {
-- 
2.43.0


From 6195461c9122d80721245c400b5a0151bbef1725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:22 +0000
Subject: [PATCH 033/101] fix: lock the message queues exclusively when
 clearing them

---
 include/edyn/parallel/message_dispatcher.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edyn/parallel/message_dispatcher.hpp b/include/edyn/parallel/message_dispatcher.hpp
index 1ca1b99..1880f25 100644
--- a/include/edyn/parallel/message_dispatcher.hpp
+++ b/include/edyn/parallel/message_dispatcher.hpp
@@ -74,7 +74,7 @@ public:
     }
 
     void clear_queues() {
-        auto lock = std::shared_lock(m_queues_mutex);
+        auto lock = std::lock_guard(m_queues_mutex);
         m_queues.clear();
     }
 
-- 
2.43.0


From 0ac32871f95af528a2aeb179384e50782c93746a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:30 +0000
Subject: [PATCH 034/101] fix: allow more than one edge from a node to itself
 in entity_graph

---
 src/edyn/core/entity_graph.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/edyn/core/entity_graph.cpp b/src/edyn/core/entity_graph.cpp
index 743d07f..f7c34f2 100644
--- a/src/edyn/core/entity_graph.cpp
+++ b/src/edyn/core/entity_graph.cpp
@@ -49,6 +49,11 @@ entity_graph::index_type entity_graph::insert_edge(entt::entity entity, index_ty
         edge.next = adj_edge_index;
         m_adjacencies[adj_index].edge_index = edge_index;
 
+        // An edge from a node to itself has a single adjacency.
+        if (node_index0 == node_index1) {
+            return edge_index;
+        }
+
         // Repeat for the corresponding adjacency of node_index1.
         adj_index = m_nodes[node_index1].adjacency_index;
 
-- 
2.43.0


From 5e34243a0eb1c4f2734009f6696567474e9d5907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:30 +0000
Subject: [PATCH 035/101] fix: entity_graph without connecting nodes has no
 connected components

---
 src/edyn/core/entity_graph.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/edyn/core/entity_graph.cpp b/src/edyn/core/entity_graph.cpp
index f7c34f2..42a5512 100644
--- a/src/edyn/core/entity_graph.cpp
+++ b/src/edyn/core/entity_graph.cpp
@@ -331,6 +331,11 @@ entity_graph::connected_components_t entity_graph::connected_components() const
         }
     }
 
+    // Components are formed around connecting nodes.
+    if (to_visit.empty()) {
+        return components;
+    }
+
     std::vector<index_type> non_connecting_indices;
 
     while (true) {
-- 
2.43.0


From 8d310fc1a0097b010f331dcb5ce14ca828ac783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:34 +0000
Subject: [PATCH 036/101] fix: moment of inertia of a capsule, for all axes and
 without the hemispheres counted off-center

---
 src/edyn/dynamics/moment_of_inertia.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/edyn/dynamics/moment_of_inertia.cpp b/src/edyn/dynamics/moment_of_inertia.cpp
index f5bf0ab..5a8b2ca 100644
--- a/src/edyn/dynamics/moment_of_inertia.cpp
+++ b/src/edyn/dynamics/moment_of_inertia.cpp
@@ -72,11 +72,13 @@ vector3 moment_of_inertia_solid_capsule(scalar mass, scalar len, scalar radius,
     auto cyl_mass = mass * cyl_vol / total_vol;
     auto sph_mass = mass * sph_vol / total_vol;
 
-    auto cyl_inertia = moment_of_inertia_solid_cylinder(cyl_mass, len, radius, axis);
+    auto cyl_inertia = moment_of_inertia_solid_cylinder(cyl_mass, len, radius, coordinate_axis::x);
     auto sph_inertia = moment_of_inertia_solid_sphere(sph_mass, radius);
 
     auto xx = sph_inertia + cyl_inertia.x;
-    auto yy_zz = sph_inertia + sph_mass * square(scalar(4) * len + scalar(3) * radius) / scalar(64) + cyl_inertia.y;
+    // Parallel axis theorem applied to the hemispheres, from the center of the
+    // sphere to their centroid and then to the centroid of the capsule.
+    auto yy_zz = sph_inertia + sph_mass * (square(scalar(4) * len + scalar(3) * radius) - square(scalar(3) * radius)) / scalar(64) + cyl_inertia.y;
 
     switch (axis) {
     case coordinate_axis::x:
-- 
2.43.0


From 4060a9743a66646585b0263728d1f4add24a01ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:34 +0000
Subject: [PATCH 037/101] fix: sign of the products of inertia of a polyhedron

---
 src/edyn/dynamics/moment_of_inertia.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edyn/dynamics/moment_of_inertia.cpp b/src/edyn/dynamics/moment_of_inertia.cpp
index 5a8b2ca..24a78fd 100644
--- a/src/edyn/dynamics/moment_of_inertia.cpp
+++ b/src/edyn/dynamics/moment_of_inertia.cpp
@@ -144,9 +144,9 @@ matrix3x3 moment_of_inertia_polyhedron(scalar mass,
 
     auto density = mass / (volume / scalar(6));
     auto r = density / scalar (120);
-    auto Iyz = yz * r;
-    auto Izx = zx * r;
-    auto Ixy = xy * r;
+    auto Iyz = -yz * r;
+    auto Izx = -zx * r;
+    auto Ixy = -xy * r;
     auto Ixx = (yy + zz) * r;
     auto Iyy = (zz + xx) * r;
     auto Izz = (xx + yy) * r;
-- 
2.43.0


From 29c4a9663ace4e696d2bb369fc23b9fb038cc139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:25 +0000
Subject: [PATCH 038/101] fix: normals of convex mesh faces that start with
 collinear vertices

---
 src/edyn/shapes/convex_mesh.cpp | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/edyn/shapes/convex_mesh.cpp b/src/edyn/shapes/convex_mesh.cpp
index 92f2f72..38dd0fa 100644
--- a/src/edyn/shapes/convex_mesh.cpp
+++ b/src/edyn/shapes/convex_mesh.cpp
@@ -88,28 +88,18 @@ void convex_mesh::calculate_normals() {
     for (size_t i = 0; i < num_faces(); ++i) {
         auto first = faces[i * 2];
         auto count = faces[i * 2 + 1];
-        // Grab first edge.
-        auto i0 = indices[first];
-        auto i1 = indices[first + 1];
-        auto &v0 = vertices[i0];
-        auto &v1 = vertices[i1];
+        auto &v0 = vertices[indices[first]];
         auto normal = vector3_zero;
 
-        // Find a second edge that's not collinear.
-        for (size_t j = 1; j < count; ++j) {
-            auto i2 = indices[first + j];
-            auto i3 = indices[first + (j + 1) % count];
-            auto &v2 = vertices[i2];
-            auto &v3 = vertices[i3];
-            auto n = cross(v1 - v0, v3 - v2);
-
-            if (try_normalize(n)) {
-                normal = n;
-                break;
-            }
+        // Sum the area vectors of a triangle fan, which is robust against
+        // consecutive collinear edges.
+        for (size_t j = 1; j + 1 < count; ++j) {
+            auto &v1 = vertices[indices[first + j]];
+            auto &v2 = vertices[indices[first + j + 1]];
+            normal += cross(v1 - v0, v2 - v0);
         }
 
-        if (normal == vector3_zero) {
+        if (!try_normalize(normal)) {
             normal = vector3_y;
         }
 
-- 
2.43.0


From bc88b69617dc6029fcd7e33ca3182353a62ff0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:48 +0000
Subject: [PATCH 039/101] fix: report ray hits with boxes only within the
 segment

---
 src/edyn/collision/raycast.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index 2df0f3d..e4dd53f 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -100,8 +100,13 @@ shape_raycast_result shape_raycast(const box_shape &box, const raycast_context &
         }
     }
 
+    // Check if intersection range intersects the [0, 1] interval.
+    if (t_max < 0 || t_min > 1) {
+        return {};
+    }
+
     auto result = shape_raycast_result{};
-    result.fraction = t_min;
+    result.fraction = clamp_unit(t_min);
     result.normal = box.get_face_normal(face_idx, ctx.orn);
     result.info_var = box_raycast_info{face_idx};
 
-- 
2.43.0


From 5177aad7e05ceee39654077ab02874efa83e19cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:17 +0000
Subject: [PATCH 040/101] fix: report ray hits with cylinders where the ray
 enters them, within the segment

---
 src/edyn/collision/raycast.cpp | 87 ++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 41 deletions(-)

diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index e4dd53f..792c4ad 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -123,63 +123,68 @@ shape_raycast_result shape_raycast(const cylinder_shape &cylinder, const raycast
         return {};
     }
 
-    auto cyl_vertices = cylinder.get_vertices(ctx.pos, ctx.orn);
+    auto cyl_axis = coordinate_axis_vector(cylinder.axis, ctx.orn);
     auto ray_dir = ctx.p1 - ctx.p0;
-    auto cyl_dir = cyl_vertices[1] - cyl_vertices[0];
-    auto cyl_dir_norm = normalize(cyl_dir);
-    auto face_idx = dot(ctx.p0 - ctx.pos, cyl_dir) < 0 ? size_t(0) : size_t(1);
-    auto face_normal = cyl_dir_norm * (face_idx == 0 ? -1 : 1);
-    auto radius = cylinder.radius;
-    auto radius_sqr = square(radius);
+    auto proj_p0 = dot(ctx.p0 - ctx.pos, cyl_axis);
+    auto proj_dir = dot(ray_dir, cyl_axis);
+    auto t_min = -EDYN_SCALAR_MAX;
+    auto t_max = EDYN_SCALAR_MAX;
 
     if (intersect_result.kind == intersect_ray_cylinder_result::kind::parallel_directions) {
-        // Cylinder and segment are parallel. Check if segment intersects a
-        // cap face.
-        vector3 closest; scalar fraction;
-        auto dist_sqr = closest_point_line(ctx.p0, ray_dir, cyl_vertices[face_idx], fraction, closest);
+        // Cylinder and segment are parallel. There's no intersection if it lies
+        // outside of the infinite cylinder.
+        auto radial = ctx.p0 - ctx.pos - cyl_axis * proj_p0;
 
-        if (dist_sqr > radius_sqr) {
+        if (length_sqr(radial) > square(cylinder.radius)) {
             return {};
         }
+    } else {
+        t_min = fraction_in;
+        t_max = fraction_out;
+    }
 
-        auto result = shape_raycast_result{};
-        result.fraction = fraction;
-        result.normal = face_normal;
-        result.info_var = cylinder_raycast_info{cylinder_feature::face, face_idx};
+    // Intersect with the region between the cap faces.
+    auto info = cylinder_raycast_info{cylinder_feature::side_edge};
 
-        return result;
-    }
+    if (std::abs(proj_dir) < EDYN_EPSILON) {
+        // Ray is parallel to the cap faces.
+        if (std::abs(proj_p0) > cylinder.half_length) {
+            return {};
+        }
+    } else {
+        auto face_idx = proj_dir < 0 ? size_t(0) : size_t(1);
+        auto t1 = (-cylinder.half_length - proj_p0) / proj_dir;
+        auto t2 = (+cylinder.half_length - proj_p0) / proj_dir;
 
-    // Line intersects infinite cylinder. Check if it's within finite cylinder.
-    auto intersection = lerp(ctx.p0, ctx.p1, fraction_in);
-    scalar projections[] = {
-        dot(intersection - cyl_vertices[0], cyl_dir_norm),
-        dot(intersection - cyl_vertices[1], cyl_dir_norm)
-    };
+        // Make t1 the intersection with the face where the ray enters.
+        if (t1 > t2) {
+            std::swap(t1, t2);
+        }
 
-    if (projections[0] > 0 && projections[1] < 0) {
-        // Intersection lies on the side of cylinder.
-        auto result = shape_raycast_result{};
-        result.fraction = fraction_in;
-        result.normal = intersect_result.normal / std::sqrt(intersect_result.dist_sqr);
-        result.info_var = cylinder_raycast_info{cylinder_feature::side_edge};
-        return result;
-    }
+        if (t1 > t_min) {
+            t_min = t1;
+            info = cylinder_raycast_info{cylinder_feature::face, face_idx};
+        }
 
-    // Intersection point is beyond cylinder with finite length.
-    // Intersect line with plane parallel to cap face.
-    auto t = dot(cyl_vertices[face_idx] - ctx.p0, face_normal) / dot(ray_dir, face_normal);
-    intersection = lerp(ctx.p0, ctx.p1, t);
-    auto dist_sqr = distance_sqr(intersection, cyl_vertices[face_idx]);
+        t_max = std::min(t_max, t2);
+    }
 
-    if (dist_sqr > radius_sqr) {
+    // Check if intersection range intersects the [0, 1] interval.
+    if (t_min > t_max || t_max < 0 || t_min > 1) {
         return {};
     }
 
     auto result = shape_raycast_result{};
-    result.fraction = t;
-    result.normal = face_normal;
-    result.info_var = cylinder_raycast_info{cylinder_feature::face, face_idx};
+    result.fraction = clamp_unit(t_min);
+    result.info_var = info;
+
+    if (info.feature == cylinder_feature::face) {
+        result.normal = cyl_axis * (info.face_index == 0 ? 1 : -1);
+    } else {
+        auto intersection = lerp(ctx.p0, ctx.p1, t_min);
+        auto proj = dot(intersection - ctx.pos, cyl_axis);
+        result.normal = normalize(intersection - ctx.pos - cyl_axis * proj);
+    }
 
     return result;
 }
-- 
2.43.0


From 8194f019822947bcb993d6338d2528055d6d4537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:17 +0000
Subject: [PATCH 041/101] fix: do not report ray hits with spheres beyond the
 end of the segment

---
 src/edyn/collision/raycast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index 792c4ad..25855ab 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -192,7 +192,7 @@ shape_raycast_result shape_raycast(const cylinder_shape &cylinder, const raycast
 shape_raycast_result shape_raycast(const sphere_shape &sphere, const raycast_context &ctx) {
     scalar t;
 
-    if (!intersect_ray_sphere(ctx.p0, ctx.p1, ctx.pos, sphere.radius, t)) {
+    if (!intersect_ray_sphere(ctx.p0, ctx.p1, ctx.pos, sphere.radius, t) || t > 1) {
         return {};
     }
 
-- 
2.43.0


From d425c1350ec62e568b670582f3f20ab8e8e2f67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:17 +0000
Subject: [PATCH 042/101] fix: report ray hits with capsules where the ray
 enters them, within the segment

---
 src/edyn/collision/raycast.cpp | 37 ++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index 25855ab..a375e1c 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -217,15 +217,38 @@ shape_raycast_result shape_raycast(const capsule_shape &capsule, const raycast_c
     auto cap_dir = vertices[1] - vertices[0];
     auto radius = capsule.radius;
 
+    // Check if ray starts inside capsule.
+    vector3 closest; scalar s;
+
+    if (closest_point_segment(vertices[0], vertices[1], ctx.p0, s, closest) <= square(radius)) {
+        auto normal = ctx.p0 - closest;
+
+        if (!try_normalize(normal)) {
+            normal = normalize(ctx.p0 - ctx.p1);
+        }
+
+        auto result = shape_raycast_result{};
+        result.fraction = 0;
+        result.normal = normal;
+
+        if (s > 0 && s < 1) {
+            result.info_var = capsule_raycast_info{capsule_feature::side};
+        } else {
+            result.info_var = capsule_raycast_info{capsule_feature::hemisphere, s > 0 ? size_t(1) : size_t(0)};
+        }
+
+        return result;
+    }
+
     auto intersect_hemisphere = [&](size_t hemi_idx) -> shape_raycast_result {
         scalar fraction;
 
-        if (!intersect_ray_sphere(ctx.p0, ctx.p1, vertices[hemi_idx], radius, fraction)) {
+        if (!intersect_ray_sphere(ctx.p0, ctx.p1, vertices[hemi_idx], radius, fraction) || fraction > 1) {
             return {};
         }
 
-        auto intersection = lerp(ctx.p0, ctx.p1, u_in);
-        auto normal = normalize(intersection - ctx.pos);
+        auto intersection = lerp(ctx.p0, ctx.p1, fraction);
+        auto normal = normalize(intersection - vertices[hemi_idx]);
 
         auto result = shape_raycast_result{};
         result.fraction = fraction;
@@ -252,9 +275,15 @@ shape_raycast_result shape_raycast(const capsule_shape &capsule, const raycast_c
 
     if (projections[0] > 0 && projections[1] < 0) {
         // Intersection lies on the side of cylindrical section.
+        if (u_in < 0 || u_in > 1) {
+            return {};
+        }
+
+        closest_point_segment(vertices[0], vertices[1], intersection, s, closest);
+
         auto result = shape_raycast_result{};
         result.fraction = u_in;
-        result.normal = intersect_result.normal / std::sqrt(intersect_result.dist_sqr);
+        result.normal = normalize(intersection - closest);
         result.info_var = capsule_raycast_info{capsule_feature::side};
 
         return result;
-- 
2.43.0


From 9738242981a7f0b0a52df4f6468842fc639c26fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:17 +0000
Subject: [PATCH 043/101] fix: report ray hits with planes only within the
 segment

---
 src/edyn/collision/raycast.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index a375e1c..cdf037e 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -409,6 +409,11 @@ shape_raycast_result shape_raycast(const plane_shape &plane, const raycast_conte
         }
     } else {
         auto t = e / d;
+
+        if (t < 0 || t > 1) {
+            return {};
+        }
+
         auto result = shape_raycast_result{};
         result.fraction = t;
         result.normal = plane.normal;
-- 
2.43.0


From 6c63047756d3e758a7e8b355d605d5f0fd925acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:17 +0000
Subject: [PATCH 044/101] fix: respond to asynchronous raycasts that come near
 no entity

---
 src/edyn/collision/raycast_service.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/edyn/collision/raycast_service.cpp b/src/edyn/collision/raycast_service.cpp
index 9353242..63c2db6 100644
--- a/src/edyn/collision/raycast_service.cpp
+++ b/src/edyn/collision/raycast_service.cpp
@@ -43,6 +43,9 @@ void raycast_service::run_broadphase(bool mt) {
 
 void raycast_service::finish_broadphase() {
     for (auto &ctx : m_broad_ctx) {
+        // There must be a result also for rays without candidates.
+        m_results[ctx.id];
+
         for (auto entity : ctx.candidates) {
             auto &narrow_ctx = m_narrow_ctx.emplace_back();
             narrow_ctx.id = ctx.id;
-- 
2.43.0


From 88924de8b3c0ff0ff683a5bb05e2bc6e1c618f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:27 +0000
Subject: [PATCH 045/101] fix: allow raycasts that start at the center of a
 sphere

---
 src/edyn/collision/raycast.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index cdf037e..314e757 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -197,10 +197,16 @@ shape_raycast_result shape_raycast(const sphere_shape &sphere, const raycast_con
     }
 
     auto intersection = lerp(ctx.p0, ctx.p1, t);
+    auto normal = intersection - ctx.pos;
+
+    // Ray might start at the center of the sphere.
+    if (!try_normalize(normal)) {
+        normal = normalize(ctx.p0 - ctx.p1);
+    }
 
     shape_raycast_result result;
     result.fraction = t;
-    result.normal = normalize(intersection - ctx.pos);
+    result.normal = normal;
     return result;
 }
 
-- 
2.43.0


From f3f9599d43244f2ce806dc635567271144c4b044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:05 +0000
Subject: [PATCH 046/101] fix: intersect rays nearly parallel to the axis of a
 cylinder accurately

---
 src/edyn/math/geom.cpp | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 49aba04..56791b1 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -1191,20 +1191,24 @@ intersect_ray_cylinder_result intersect_ray_cylinder(vector3 p0, vector3 p1,
     // Detailed derivation: https://xissburg.github.io/2022-10-03-intersecting-line-against-cylinder
 
     auto cyl_dir = coordinate_axis_vector(axis, orn);
-    vector3 cyl_vertices[] = {
-        pos + cyl_dir * half_length,
-        pos - cyl_dir * half_length
-    };
-    scalar s, t;
 
-    if (!closest_point_line_line(cyl_vertices[0], cyl_vertices[1], p0, p1, s, t)) {
+    // Components of the ray orthogonal to the cylinder axis, which do not lose
+    // precision if the directions are nearly parallel.
+    auto d = p1 - p0;
+    auto m = p0 - pos;
+    auto d_ortho = d - cyl_dir * dot(d, cyl_dir);
+    auto m_ortho = m - cyl_dir * dot(m, cyl_dir);
+    auto dd_ortho = length_sqr(d_ortho);
+
+    if (dd_ortho <= length_sqr(d) * scalar(1e-10)) {
         return {intersect_ray_cylinder_result::kind::parallel_directions};
     }
 
+    // Parameter of the point in the ray that's closest to the cylinder axis and
+    // the vector between them.
+    auto t = -dot(m_ortho, d_ortho) / dd_ortho;
+    auto normal = m_ortho + d_ortho * t;
     auto radius_sqr = square(radius);
-    auto closest_cyl = lerp(cyl_vertices[0], cyl_vertices[1], s);
-    auto closest_ray = lerp(p0, p1, t);
-    auto normal = closest_ray - closest_cyl;
     auto dist_sqr = length_sqr(normal);
 
     // Distance between lines bigger than radius.
@@ -1213,12 +1217,7 @@ intersect_ray_cylinder_result intersect_ray_cylinder(vector3 p0, vector3 p1,
     }
 
     // Offset `t` backwards to place it where the intersection happens.
-    auto d = p1 - p0;
-    auto e = cyl_vertices[1] - cyl_vertices[0];
-    auto dd = dot(d, d);
-    auto ee = dot(e, e);
-    auto de = dot(d, e);
-    auto delta_sqr = (radius_sqr - dist_sqr) * ee / (dd * ee - de * de);
+    auto delta_sqr = (radius_sqr - dist_sqr) / dd_ortho;
     auto delta = std::sqrt(delta_sqr);
     fraction_in = t - delta;
     fraction_out = t + delta;
-- 
2.43.0


From 84ae0ab6cea59c1272aeb12cf18934c406b9d6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:46 +0000
Subject: [PATCH 047/101] fix: rays parallel to a face of a polyhedron miss it
 in front of the face, not behind

---
 src/edyn/collision/raycast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index 314e757..79fc02c 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -322,7 +322,7 @@ shape_raycast_result shape_raycast(const polyhedron_shape &poly, const raycast_c
         if (std::abs(denom) < EDYN_EPSILON) {
             // Segment does not intersect polyhedron if there's any face that is
             // parallel to it and it lies in front of the face.
-            if (dist > 0) {
+            if (dist < 0) {
                 return {};
             }
         } else {
-- 
2.43.0


From 73c100181ac5ef752cbb0dd3f71d332faa9bc255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:12 +0000
Subject: [PATCH 048/101] fix: rays that enter a capsule right where a
 hemisphere begins hit it

---
 src/edyn/collision/raycast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index 79fc02c..2aaa3bf 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -297,7 +297,7 @@ shape_raycast_result shape_raycast(const capsule_shape &capsule, const raycast_c
 
     // Intersection point is beyond cylindrical section.
     // Intersect line with hemisphere.
-    auto hemi_idx = projections[0] < 0 ? 0 : 1;
+    auto hemi_idx = projections[0] > 0 ? 1 : 0;
     return intersect_hemisphere(hemi_idx);
 }
 
-- 
2.43.0


From 676122c81d5eb622174a79a837feca60a525af34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:53 +0000
Subject: [PATCH 049/101] fix: removing collision exclusions of bodies that
 were destroyed or have none is harmless

---
 src/edyn/util/exclude_collision.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/edyn/util/exclude_collision.cpp b/src/edyn/util/exclude_collision.cpp
index 7dbaed4..38dfe9e 100644
--- a/src/edyn/util/exclude_collision.cpp
+++ b/src/edyn/util/exclude_collision.cpp
@@ -37,6 +37,11 @@ void exclude_collision(entt::registry &registry, entity_pair entities) {
 }
 
 void remove_collision_exclusion_one_way(entt::registry &registry, entt::entity first, entt::entity second) {
+    // The entity might've been destroyed or it might not have any exclusions.
+    if (!registry.valid(first) || !registry.all_of<collision_exclusion>(first)) {
+        return;
+    }
+
     registry.patch<collision_exclusion>(first,
         [&](collision_exclusion &exclusion) {
             const auto size = exclusion.num_entities();
@@ -57,6 +62,10 @@ void remove_collision_exclusion(entt::registry &registry, entt::entity first, en
 }
 
 void clear_collision_exclusion(entt::registry &registry, entt::entity entity) {
+    if (!registry.all_of<collision_exclusion>(entity)) {
+        return;
+    }
+
     auto &exclude = registry.get<collision_exclusion>(entity);
     const auto size = exclude.num_entities();
 
-- 
2.43.0


From cddf189ae04f6d4acc75ca6c71fac44fc9df4140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:28 +0000
Subject: [PATCH 050/101] fix: a sphere touches a plane at the right point and
 within the collision threshold

---
 src/edyn/collision/collide/collide_sphere_plane.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/edyn/collision/collide/collide_sphere_plane.cpp b/src/edyn/collision/collide/collide_sphere_plane.cpp
index 8e40c03..8b8ab04 100644
--- a/src/edyn/collision/collide/collide_sphere_plane.cpp
+++ b/src/edyn/collision/collide/collide_sphere_plane.cpp
@@ -9,13 +9,14 @@ void collide(const sphere_shape &sphere, const plane_shape &plane,
     auto d = ctx.posA - center;
     auto l = dot(normal, d);
 
-    if (l > sphere.radius) {
+    auto distance = l - sphere.radius;
+
+    if (distance > ctx.threshold) {
         return;
     }
 
     auto pivotA = rotate(conjugate(ctx.ornA), -normal * sphere.radius);
-    auto pivotB = rotate(conjugate(ctx.ornB), d - normal * l - center);
-    auto distance = l - sphere.radius;
+    auto pivotB = ctx.posA - normal * l;
     result.add_point({pivotA, pivotB, plane.normal, distance, contact_normal_attachment::normal_on_B});
 }
 
-- 
2.43.0


From dd48f575547ace16fa283f5971a9dd19981a61be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:28 +0000
Subject: [PATCH 051/101] fix: a sphere next to an edge of another face of a
 polyhedron touches it

---
 .../collide/collide_polyhedron_sphere.cpp         | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/edyn/collision/collide/collide_polyhedron_sphere.cpp b/src/edyn/collision/collide/collide_polyhedron_sphere.cpp
index 7816f5b..f7c6784 100644
--- a/src/edyn/collision/collide/collide_polyhedron_sphere.cpp
+++ b/src/edyn/collision/collide/collide_polyhedron_sphere.cpp
@@ -64,8 +64,21 @@ void collide(const polyhedron_shape &shA, const sphere_shape &shB,
     // and recalculate distance.
     auto pivotA = to_world_space(to_vector3_xz(closest),
                                  polygon.origin, polygon.basis);
+    auto new_sep_axis_len_sqr = distance_sqr(pivotA, posB);
+
+    // The closest edge could belong to another face.
+    for (size_t i = 0; i < meshA.num_edges(); ++i) {
+        auto [vertexA0, vertexA1] = meshA.get_edge(i);
+        vector3 closest_edge; scalar t;
+        auto dist_sqr = closest_point_segment(vertexA0, vertexA1, posB, t, closest_edge);
+
+        if (dist_sqr < new_sep_axis_len_sqr) {
+            new_sep_axis_len_sqr = dist_sqr;
+            pivotA = closest_edge;
+        }
+    }
+
     auto new_sep_axis = pivotA - posB;
-    auto new_sep_axis_len_sqr = length_sqr(new_sep_axis);
 
     if (new_sep_axis_len_sqr > EDYN_EPSILON) {
         auto new_sep_axis_len = std::sqrt(new_sep_axis_len_sqr);
-- 
2.43.0


From b89a488aeb1168ef158472d7dbc838be104d1775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:28 +0000
Subject: [PATCH 052/101] fix: polyhedrons with parallel edges or none that
 qualify collide properly

---
 .../collide/collide_polyhedron_polyhedron.cpp         | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/edyn/collision/collide/collide_polyhedron_polyhedron.cpp b/src/edyn/collision/collide/collide_polyhedron_polyhedron.cpp
index 444743d..17e5b75 100644
--- a/src/edyn/collision/collide/collide_polyhedron_polyhedron.cpp
+++ b/src/edyn/collision/collide/collide_polyhedron_polyhedron.cpp
@@ -125,7 +125,10 @@ void collide(const polyhedron_shape &shA, const polyhedron_shape &shB,
             {
                 auto dir = cross(edge_dirA, edge_dirB);
 
-                if (try_normalize(dir)) {
+                // The direction is meaningless if the edges are parallel.
+                auto is_parallel = !(length_sqr(dir) > EDYN_EPSILON * length_sqr(edge_dirA) * length_sqr(edge_dirB));
+
+                if (!is_parallel && try_normalize(dir)) {
                     // Make direction point outside of shape A.
                     if (dot(verticesA[0] - posA, dir) < 0) {
                         dir *= -1;
@@ -146,10 +149,8 @@ void collide(const polyhedron_shape &shA, const polyhedron_shape &shB,
         }
     }
 
-    auto edge_distance = edge_projectionA - edge_projectionB;
-
-    if (edge_distance > distance) {
-        distance = edge_distance;
+    if (min_edge_dist > distance) {
+        distance = min_edge_dist;
         projectionA = edge_projectionA;
         projectionB = edge_projectionB;
         sep_axis = edge_dir;
-- 
2.43.0


From 365a6afa92964a3b1ba1c266b85d7e5bc6b23179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:28 +0000
Subject: [PATCH 053/101] fix: polyhedron and mesh: parallel edges, unset and
 stale projections

---
 .../collision/collide/collide_polyhedron_mesh.cpp    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/edyn/collision/collide/collide_polyhedron_mesh.cpp b/src/edyn/collision/collide/collide_polyhedron_mesh.cpp
index e198db0..b55f5d4 100644
--- a/src/edyn/collision/collide/collide_polyhedron_mesh.cpp
+++ b/src/edyn/collision/collide/collide_polyhedron_mesh.cpp
@@ -89,8 +89,10 @@ static void collide_polyhedron_triangle(
 
             if (edges_generate_minkowski_face(normals[0], normals[1], tri_normal, -tri_normal, poly_edge, tri_edge)) {
                 auto dir = cross(poly_edge, tri_edge);
+                // The direction is meaningless if the edges are parallel.
+                auto is_parallel = !(length_sqr(dir) > EDYN_EPSILON * length_sqr(poly_edge) * length_sqr(tri_edge));
 
-                if (try_normalize(dir)) {
+                if (!is_parallel && try_normalize(dir)) {
                     // Make it point outside of polyhedron. Remember the
                     // polyhedron is centered at the origin.
                     if (dot(vertices[0], dir) < 0) {
@@ -112,10 +114,8 @@ static void collide_polyhedron_triangle(
         }
     }
 
-    auto edge_distance = edge_projection_poly - edge_projection_tri;
-
-    if (edge_distance > distance) {
-        distance = edge_distance;
+    if (min_edge_dist > distance) {
+        distance = min_edge_dist;
         projection_poly = edge_projection_poly;
         projection_tri = edge_projection_tri;
         sep_axis = edge_dir;
@@ -154,7 +154,7 @@ static void collide_polyhedron_triangle(
         rmesh.vertices.begin(), rmesh.vertices.end(), vector3_zero,
         sep_axis, projection_poly, true, support_feature_tolerance);
 
-    auto contact_origin_tri = sep_axis * projection_tri;
+    auto contact_origin_tri = sep_axis * proj_tri;
     auto hull_tri = std::array<size_t, 3>{};
     size_t hull_tri_size = 0;
 
-- 
2.43.0


From 044e35234a8e2d7a37cb3bd8493905a93f29b458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:28 +0000
Subject: [PATCH 054/101] fix: polyhedron and cylinder: axes other than x,
 corners on caps, edges along the side

---
 .../collide/collide_polyhedron_cylinder.cpp   | 36 ++++++++++++-------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/edyn/collision/collide/collide_polyhedron_cylinder.cpp b/src/edyn/collision/collide/collide_polyhedron_cylinder.cpp
index d26b8d8..65da1db 100644
--- a/src/edyn/collision/collide/collide_polyhedron_cylinder.cpp
+++ b/src/edyn/collision/collide/collide_polyhedron_cylinder.cpp
@@ -207,10 +207,9 @@ void collide(const polyhedron_shape &shA, const cylinder_shape &shB,
         const auto sizeA = polygon.hull.size();
         const auto limitA = sizeA == 2 ? 1 : sizeA;
 
-        // Check if circle and polygon edges intersect.
-        for (size_t i = 0; i < limitA; ++i) {
-            // Transform vertices to `shB` (cylinder) space. The cylinder axis
-            // is the x-axis.
+        // Check if circle and polygon edges intersect. A single vertex has no edges.
+        for (size_t i = 0; sizeA > 1 && i < limitA; ++i) {
+            // Transform vertices to `shB` (cylinder) space.
             auto idx0A = polygon.hull[i];
             auto idx1A = polygon.hull[(i + 1) % sizeA];
             auto v0A = polygon.vertices[idx0A];
@@ -220,8 +219,10 @@ void collide(const polyhedron_shape &shA, const cylinder_shape &shB,
             auto v1B = to_object_space(v1A, posB, ornB);
 
             scalar s[2];
-            auto num_points = intersect_line_circle(to_vector2_zy(v0B),
-                                                    to_vector2_zy(v1B),
+            // Project onto the plane orthogonal to the cylinder axis.
+            auto v0B_proj = vector2{v0B[cyl_ax_idx_ortho0], v0B[cyl_ax_idx_ortho1]};
+            auto v1B_proj = vector2{v1B[cyl_ax_idx_ortho0], v1B[cyl_ax_idx_ortho1]};
+            auto num_points = intersect_line_circle(v0B_proj, v1B_proj,
                                                     shB.radius, s[0], s[1]);
 
             for (size_t j = 0; j < num_points; ++j) {
@@ -280,12 +281,8 @@ void collide(const polyhedron_shape &shA, const cylinder_shape &shB,
         }
 
         // Check if the cylinder edge intersects the edges of the polygon.
-        if (polygon.hull.size() > 1) {
-            // If the feature is a polygon, it will be necessary to wrap around the
-            // vertex array. If it is just one edge, then avoid calculating the same
-            // segment-segment intersection twice.
+        if (polygon.hull.size() > 2) {
             const auto sizeA = polygon.hull.size();
-            const auto limitA = sizeA == 2 ? 1 : sizeA;
 
             // Vertices of cylinder side edge on the contact plane space.
             auto t0B = to_object_space(edge_vertices[0], polygon.origin, polygon.basis);
@@ -295,7 +292,7 @@ void collide(const polyhedron_shape &shA, const cylinder_shape &shB,
 
             scalar s[2], t[2];
 
-            for (size_t i = 0; i < limitA; ++i) {
+            for (size_t i = 0; i < sizeA; ++i) {
                 auto idx0A = polygon.hull[i];
                 auto idx1A = polygon.hull[(i + 1) % sizeA];
                 auto &v0A = polygon.plane_vertices[idx0A];
@@ -311,6 +308,21 @@ void collide(const polyhedron_shape &shA, const cylinder_shape &shB,
                     result.maybe_add_point(point);
                 }
             }
+        } else if (polygon.hull.size() == 2) {
+            // Polygon edge against cylinder edge, which could be parallel.
+            scalar s[2], t[2];
+            vector3 closestA[2], closestB[2];
+            size_t num_points;
+            closest_point_segment_segment(polygon.vertices[polygon.hull[0]], polygon.vertices[polygon.hull[1]],
+                                          edge_vertices[0], edge_vertices[1],
+                                          s[0], t[0], closestA[0], closestB[0], &num_points,
+                                          &s[1], &t[1], &closestA[1], &closestB[1]);
+
+            for (size_t i = 0; i < num_points; ++i) {
+                point.pivotA = closestA[i];
+                point.pivotB = to_object_space(closestB[i], posB, ornB);
+                result.maybe_add_point(point);
+            }
         } else {
             // Polygon vertex against cylinder edge.
             EDYN_ASSERT(polygon.hull.size() == 1);
-- 
2.43.0


From 1287c96a1ff10304ede61d113905c9bf0ee07b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:28 +0000
Subject: [PATCH 055/101] fix: an edge of a polyhedron parallel to a capsule
 touches it

---
 .../collide/collide_polyhedron_capsule.cpp    | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/edyn/collision/collide/collide_polyhedron_capsule.cpp b/src/edyn/collision/collide/collide_polyhedron_capsule.cpp
index faac17c..1813ee4 100644
--- a/src/edyn/collision/collide/collide_polyhedron_capsule.cpp
+++ b/src/edyn/collision/collide/collide_polyhedron_capsule.cpp
@@ -113,12 +113,8 @@ void collide(const polyhedron_shape &shA, const capsule_shape &shB,
         }
 
         // Check if the capsule edge intersects the polygon's edges.
-        if (polygon.hull.size() > 1) {
-            // If the feature is a polygon, it will be necessary to wrap around the
-            // vertex array. If it is just one edge, then avoid calculating the same
-            // segment-segment intersection twice.
+        if (polygon.hull.size() > 2) {
             const auto sizeA = polygon.hull.size();
-            const auto limitA = sizeA == 2 ? 1 : sizeA;
             scalar s[2], t[2];
 
             vector2 plane_capsule_vertices[] = {
@@ -126,7 +122,7 @@ void collide(const polyhedron_shape &shA, const capsule_shape &shB,
                 to_vector2_xz(to_object_space(capsule_vertices[1], polygon.origin, polygon.basis))
             };
 
-            for (size_t i = 0; i < limitA; ++i) {
+            for (size_t i = 0; i < sizeA; ++i) {
                 auto idx0A = polygon.hull[i];
                 auto idx1A = polygon.hull[(i + 1) % sizeA];
                 auto &v0A = polygon.plane_vertices[idx0A];
@@ -142,6 +138,21 @@ void collide(const polyhedron_shape &shA, const capsule_shape &shB,
                     result.maybe_add_point(point);
                 }
             }
+        } else if (polygon.hull.size() == 2) {
+            // Polyhedron edge against capsule edge, which could be parallel.
+            scalar s[2], t[2];
+            vector3 closestA[2], closestB[2];
+            size_t num_points;
+            closest_point_segment_segment(polygon.vertices[polygon.hull[0]], polygon.vertices[polygon.hull[1]],
+                                          capsule_vertices[0], capsule_vertices[1],
+                                          s[0], t[0], closestA[0], closestB[0], &num_points,
+                                          &s[1], &t[1], &closestA[1], &closestB[1]);
+
+            for (size_t i = 0; i < num_points; ++i) {
+                point.pivotA = closestA[i];
+                point.pivotB = to_object_space(closestB[i] + sep_axis * shB.radius, posB, ornB);
+                result.maybe_add_point(point);
+            }
         } else {
             // Polyhedron vertex against capsule edge.
             EDYN_ASSERT(polygon.hull.size() == 1);
-- 
2.43.0


From 1540032994ddf8bb4f86efc50ecf424496220ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:28 +0000
Subject: [PATCH 056/101] fix: capsule and cylinder with nearly parallel axes
 collide properly

---
 src/edyn/collision/collide/collide_capsule_cylinder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/edyn/collision/collide/collide_capsule_cylinder.cpp b/src/edyn/collision/collide/collide_capsule_cylinder.cpp
index 533de4c..29f3b29 100644
--- a/src/edyn/collision/collide/collide_capsule_cylinder.cpp
+++ b/src/edyn/collision/collide/collide_capsule_cylinder.cpp
@@ -50,8 +50,8 @@ void collide(const capsule_shape &shA, const cylinder_shape &shB,
                 dir *= -1; // Make dir point towards A.
             }
 
-            auto projA = dot(posA, dir) - shA.radius;
-            auto projB = dot(posB, dir) + shB.radius;
+            auto projA = -capsule_support_projection(capsule_vertices, shA.radius, -dir);
+            auto projB = shB.support_projection(posB, ornB, dir);
             auto dist = projA - projB;
 
             if (dist > distance) {
-- 
2.43.0


From 86de1bcf1801c74d4a6a29ee3e9d850cf19a1da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:28 +0000
Subject: [PATCH 057/101] fix: cylinders with nearly parallel axes collide
 properly, along any axis

---
 src/edyn/collision/collide/collide_cylinder_cylinder.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/edyn/collision/collide/collide_cylinder_cylinder.cpp b/src/edyn/collision/collide/collide_cylinder_cylinder.cpp
index 3326215..6b6a770 100644
--- a/src/edyn/collision/collide/collide_cylinder_cylinder.cpp
+++ b/src/edyn/collision/collide/collide_cylinder_cylinder.cpp
@@ -81,8 +81,8 @@ void collide(const cylinder_shape &shA, const cylinder_shape &shB,
                 dir *= -1; // Make dir point towards A.
             }
 
-            auto projA = -(dot(posA, -dir) + shA.radius);
-            auto projB = dot(posB, dir) + shB.radius;
+            auto projA = -shA.support_projection(posA, ornA, -dir);
+            auto projB = shB.support_projection(posB, ornB, dir);
             auto dist = projA - projB;
 
             if (dist > distance) {
@@ -357,8 +357,8 @@ void collide(const cylinder_shape &shA, const cylinder_shape &shB,
             // Check for containment.
             // If any point on a circle of B is within the prism of A, then the face of B
             // is contained in the face of A, and vice-versa.
-            auto circle_pointA = posA + quaternion_z(ornA) * shA.radius;
-            auto circle_pointB = posB + quaternion_z(ornB) * shB.radius;
+            auto circle_pointA = posA + coordinate_axis_vector(static_cast<coordinate_axis>(cyl_ax_idx_orthoA0), ornA) * shA.radius;
+            auto circle_pointB = posB + coordinate_axis_vector(static_cast<coordinate_axis>(cyl_ax_idx_orthoB0), ornB) * shB.radius;
 
             const auto multipliers = std::array<scalar, 4>{0, 1, 0, -1};
 
-- 
2.43.0


From 7f418bab2ecb72b54fd8c8ca91fa1b375fea01e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:26 +0000
Subject: [PATCH 058/101] fix: bodies and constraints cleared before they are
 in an island are left out

---
 src/edyn/simulation/island_manager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index c0f3412..ba74e42 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -12,6 +12,7 @@
 #include "edyn/util/vector_util.hpp"
 #include "edyn/util/entt_util.hpp"
 #include <entt/entity/registry.hpp>
+#include <algorithm>
 #include <set>
 
 namespace edyn {
@@ -125,6 +126,13 @@ void island_manager::init_new_nodes_and_edges() {
     auto &graph = m_registry->ctx().get<entity_graph>();
     auto node_view = m_registry->view<graph_node>();
     auto edge_view = m_registry->view<graph_edge>();
+
+    // Rigid bodies and constraints might've been cleared.
+    auto not_node = [&](auto entity) { return !node_view.contains(entity); };
+    auto not_edge = [&](auto entity) { return !edge_view.contains(entity); };
+    m_new_graph_nodes.erase(std::remove_if(m_new_graph_nodes.begin(), m_new_graph_nodes.end(), not_node), m_new_graph_nodes.end());
+    m_new_graph_edges.erase(std::remove_if(m_new_graph_edges.begin(), m_new_graph_edges.end(), not_edge), m_new_graph_edges.end());
+
     std::set<entity_graph::index_type> procedural_node_indices;
 
     for (auto entity : m_new_graph_nodes) {
-- 
2.43.0


From fa9728092faa3661817531c89e9993e1cbff88a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:26 +0000
Subject: [PATCH 059/101] fix: an island that merges with one to be split is
 split

---
 src/edyn/simulation/island_manager.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index ba74e42..0280794 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -345,6 +345,18 @@ entt::entity island_manager::merge_islands(const std::vector<entt::entity> &isla
 
     insert_to_island(island_entity, all_nodes, all_edges);
 
+    // A pending split of one of the merged islands now applies to the island
+    // that survives.
+    for (auto other_island_entity : other_island_entities) {
+        if (m_islands_to_split.contains(other_island_entity)) {
+            m_islands_to_split.erase(other_island_entity);
+
+            if (!m_islands_to_split.contains(island_entity)) {
+                m_islands_to_split.push(island_entity);
+            }
+        }
+    }
+
     // Destroy empty islands.
     m_registry->destroy(other_island_entities.begin(), other_island_entities.end());
 
-- 
2.43.0


From b62c42efbaa882f270b5427d3ad7572e03a9689b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:32 +0000
Subject: [PATCH 060/101] fix: bodies and constraints which are not connected
 to an island anymore leave it

---
 src/edyn/simulation/island_manager.cpp | 34 +++++++++++++++++---------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index 0280794..2c2acf6 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -393,7 +393,12 @@ void island_manager::split_islands() {
         if (source_island.nodes.empty() ||
             std::find_if(source_island.nodes.begin(), source_island.nodes.end(),
                          [&](auto entity){return procedural_view.contains(entity);}) == source_island.nodes.end()) {
-            EDYN_ASSERT(source_island.edges.empty());
+            // Edges that remain do not connect any procedural entity.
+            for (auto entity : source_island.edges) {
+                m_registry->patch<island_resident>(entity, [](island_resident &resident) {
+                    resident.island_entity = entt::null;
+                });
+            }
 
             // Remove destroyed island from non-procedural entities.
             for (auto entity : source_island.nodes) {
@@ -438,9 +443,14 @@ void island_manager::split_islands() {
 
         EDYN_ASSERT(!islands.empty());
 
-        if (islands.size() == 1) {
-            // Island is a single connected component in the entity graph.
-            continue;
+        // Edges that do not connect any procedural entity anymore leave the island.
+        for (auto entity : source_island.edges) {
+            if (std::none_of(islands.begin(), islands.end(), [&](auto &island) { return island.edges.contains(entity); })) {
+                m_registry->patch<island_resident>(entity, [](island_resident &resident) {
+                    resident.island_entity = entt::null;
+                });
+                m_registry->remove<sleeping_tag>(entity);
+            }
         }
 
         // Find biggest island among all and move that into the original as to
@@ -457,6 +467,15 @@ void island_manager::split_islands() {
             }
         }
 
+        // Non-procedural entities which are not connected to it leave the original
+        // island.
+        for (auto entity : source_island.nodes) {
+            if (!procedural_view.contains(entity) && !islands[biggest_idx].nodes.contains(entity)) {
+                auto [resident] = multi_resident_view.get(entity);
+                resident.island_entities.remove(source_island_entity);
+            }
+        }
+
         source_island = std::move(islands[biggest_idx]);
         // swap with last and pop.
         islands[biggest_idx] = std::move(islands.back());
@@ -500,13 +519,6 @@ void island_manager::split_islands() {
                 } else {
                     auto [resident] = multi_resident_view.get(node_entity);
                     resident.island_entities.push(island_entity_new);
-
-                    // Remove the original island if this non-procedural entity
-                    // is not contained in it anymore.
-                    auto &original_island = m_registry->get<edyn::island>(source_island_entity);
-                    if (!original_island.nodes.contains(node_entity)) {
-                        resident.island_entities.remove(source_island_entity);
-                    }
                 }
 
                 // Update island AABB by uniting all AABBs of all
-- 
2.43.0


From 63a7ede0a852fec79893ad89e3a9395b1a90ab3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:19 +0000
Subject: [PATCH 061/101] fix: changing the kind of a rigid body keeps islands
 intact

---
 src/edyn/simulation/island_manager.cpp | 57 +++++++++++++++-----------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index 2c2acf6..53b504e 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -656,39 +656,48 @@ void island_manager::put_islands_to_sleep() {
 
 void island_manager::set_procedural(entt::entity entity, bool is_procedural) {
     if (is_procedural) {
-        if (auto *resident = m_registry->try_get<multi_island_resident>(entity)) {
-            entt::entity merged_island_entity;
+        if (m_registry->all_of<multi_island_resident>(entity)) {
+            // It leaves the islands it is in and is treated as a new node in the
+            // next update, which will merge the islands it is connected to.
+            m_registry->remove<multi_island_resident>(entity);
+            m_registry->emplace<island_resident>(entity);
+            m_new_graph_nodes.push_back(entity);
+        }
+    } else {
+        if (auto *resident = m_registry->try_get<island_resident>(entity)) {
+            auto island_entity = resident->island_entity;
+            entt::sparse_set island_entities;
 
-            if (resident->island_entities.empty()) {
-                m_registry->remove<multi_island_resident>(entity);
-                m_registry->emplace<island_resident>(entity);
+            if (island_entity != entt::null) {
+                island_entities.push(island_entity);
+                resident->island_entity = entt::null;
 
-                auto island_entity = create_island();
-                auto node_entities = std::vector<entt::entity>{};
-                node_entities.push_back(entity);
+                // Island could have been split.
+                if (!m_islands_to_split.contains(island_entity)) {
+                    m_islands_to_split.push(island_entity);
+                }
 
-                insert_to_island(island_entity, node_entities, {});
-            } else {
-                if (resident->island_entities.size() > 1) {
-                    auto island_entities = std::vector(resident->island_entities.begin(), resident->island_entities.end());
-                    merged_island_entity = merge_islands(island_entities, {}, {});
-                } else {
-                    merged_island_entity = *resident->island_entities.begin();
+                if (!m_islands_to_wake_up.contains(island_entity)) {
+                    m_islands_to_wake_up.push(island_entity);
                 }
+            } else {
+                // Not in an island yet. Stay in the islands of its edges.
+                auto &graph = m_registry->ctx().get<entity_graph>();
+                auto &node = m_registry->get<graph_node>(entity);
 
-                resident->island_entities.clear(); // Must clear because `on_destroy_multi_island_resident` will be called.
-                m_registry->remove<multi_island_resident>(entity);
-                m_registry->emplace<island_resident>(entity, merged_island_entity);
+                graph.visit_edges(node.node_index, [&](auto edge_index) {
+                    auto &edge_resident = m_registry->get<island_resident>(graph.edge_entity(edge_index));
+
+                    if (edge_resident.island_entity != entt::null && !island_entities.contains(edge_resident.island_entity)) {
+                        island_entities.push(edge_resident.island_entity);
+                        m_registry->get<island>(edge_resident.island_entity).nodes.push(entity);
+                    }
+                });
             }
-        }
-    } else {
-        if (auto *resident = m_registry->try_get<island_resident>(entity)) {
-            entt::sparse_set island_entities;
-            island_entities.push(resident->island_entity);
-            resident->island_entity = entt::null;
 
             m_registry->emplace<multi_island_resident>(entity, std::move(island_entities));
             m_registry->remove<island_resident>(entity);
+            m_registry->remove<sleeping_tag>(entity);
         }
     }
 }
-- 
2.43.0


From 83d3bbaa37b6bb78ab6044194178a7c0870d9eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:06 +0000
Subject: [PATCH 062/101] fix: contact points are created without asynchronous
 settings in sequential mode

---
 include/edyn/collision/narrowphase.hpp                | 2 +-
 src/edyn/collision/narrowphase.cpp                    | 2 +-
 src/edyn/networking/util/import_contact_manifolds.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/edyn/collision/narrowphase.hpp b/include/edyn/collision/narrowphase.hpp
index 402de6f..38815c9 100644
--- a/include/edyn/collision/narrowphase.hpp
+++ b/include/edyn/collision/narrowphase.hpp
@@ -64,7 +64,7 @@ void narrowphase::update_contact_manifolds(Iterator begin, Iterator end) {
     auto dt = registry.ctx().get<settings>().fixed_dt;
 
     auto &async_settings = registry.ctx().get<const settings>().async_settings;
-    const auto &transient = async_settings->contact_points_transient;
+    const auto transient = async_settings ? async_settings->contact_points_transient : std::optional<edyn::transient>{};
 
     for (auto it = begin; it != end; ++it) {
         entt::entity manifold_entity = *it;
diff --git a/src/edyn/collision/narrowphase.cpp b/src/edyn/collision/narrowphase.cpp
index 8c4d61e..c67f928 100644
--- a/src/edyn/collision/narrowphase.cpp
+++ b/src/edyn/collision/narrowphase.cpp
@@ -91,7 +91,7 @@ void narrowphase::finish_detect_collision() {
     it = manifold_view.begin();
 
     auto &async_settings = m_registry->ctx().get<const settings>().async_settings;
-    const auto &transient = async_settings->contact_points_transient;
+    const auto transient = async_settings ? async_settings->contact_points_transient : std::optional<edyn::transient>{};
 
     for (size_t i = 0; i < num_manifolds; ++i, ++it) {
         auto entity = *it;
diff --git a/src/edyn/networking/util/import_contact_manifolds.cpp b/src/edyn/networking/util/import_contact_manifolds.cpp
index 948a588..d06796c 100644
--- a/src/edyn/networking/util/import_contact_manifolds.cpp
+++ b/src/edyn/networking/util/import_contact_manifolds.cpp
@@ -105,7 +105,7 @@ void replace_manifold(entt::registry &registry,
     auto info_entity = manifold_info.contact_entity;
     auto &manifold_state = registry.get<contact_manifold_state>(manifold_entity);
     auto &async_settings = registry.ctx().get<const settings>().async_settings;
-    const auto &transient = async_settings->contact_points_transient;
+    const auto transient = async_settings ? async_settings->contact_points_transient : std::optional<edyn::transient>{};
 
     while (info_entity != entt::null) {
         auto &contact = contacts.get(info_entity);
-- 
2.43.0


From 516ca874a4cd55201e552177e8799e6936347603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:41 +0000
Subject: [PATCH 063/101] fix: contact manifolds of bodies that lose their
 shape are destroyed

---
 src/edyn/collision/broadphase.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/edyn/collision/broadphase.cpp b/src/edyn/collision/broadphase.cpp
index f0aa6eb..0b8ebf3 100644
--- a/src/edyn/collision/broadphase.cpp
+++ b/src/edyn/collision/broadphase.cpp
@@ -122,11 +122,12 @@ void broadphase::destroy_separated_manifolds() {
 
     // Destroy manifolds of pairs whose AABBs are not intersecting anymore.
     for (auto [entity, manifold] : manifold_view.each()) {
-        auto [b0] = aabb_view.get(manifold.body[0]);
-        auto [b1] = aabb_view.get(manifold.body[1]);
         const auto separation_offset = vector3_one * -m_separation_threshold;
 
-        if (!intersect(b0.inset(separation_offset), b1)) {
+        // Bodies that lose their shape do not have an AABB anymore.
+        if (!aabb_view.contains(manifold.body[0]) || !aabb_view.contains(manifold.body[1]) ||
+            !intersect(aabb_view.get<AABB>(manifold.body[0]).inset(separation_offset),
+                       aabb_view.get<AABB>(manifold.body[1]))) {
             clear_contact_manifold(*m_registry, entity);
             m_registry->destroy(entity);
         }
-- 
2.43.0


From 2e27e7e85d8a8fb128af6533d86d85e7eea20faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:05 +0000
Subject: [PATCH 064/101] fix: contact points of manifolds between bodies which
 are not procedural are destroyed

---
 src/edyn/util/rigidbody.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index cbf24a2..c228869 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -592,16 +592,23 @@ void rigidbody_apply_kind(entt::registry &registry, entt::entity entity, rigidbo
     // at least one dynamic entity.
     if (!procedural) {
         auto manifold_view = registry.view<contact_manifold>();
+        auto manifold_entities = std::vector<entt::entity>{};
+
         visit_edges(registry, entity, [&](entt::entity edge_entity) {
             if (manifold_view.contains(edge_entity)) {
                 auto [manifold] = manifold_view.get(edge_entity);
                 auto other = manifold.body[0] == entity ? manifold.body[1] : manifold.body[0];
 
                 if (!registry.all_of<procedural_tag>(other)) {
-                    registry.destroy(edge_entity);
+                    manifold_entities.push_back(edge_entity);
                 }
             }
         });
+
+        for (auto manifold_entity : manifold_entities) {
+            clear_contact_manifold(registry, manifold_entity);
+            registry.destroy(manifold_entity);
+        }
     }
 }
 
-- 
2.43.0


From ab13785ec59250f40fe394bc8bc961ef5bb9709c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:05 +0000
Subject: [PATCH 065/101] fix: polyhedrons and compounds that are removed
 before the next step are not initialized

---
 src/edyn/util/polyhedron_shape_initializer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/edyn/util/polyhedron_shape_initializer.cpp b/src/edyn/util/polyhedron_shape_initializer.cpp
index b32ed60..6bccce3 100644
--- a/src/edyn/util/polyhedron_shape_initializer.cpp
+++ b/src/edyn/util/polyhedron_shape_initializer.cpp
@@ -67,6 +67,9 @@ void polyhedron_shape_initializer::init_new_shapes() {
     auto compound_view = m_registry->view<compound_shape>();
 
     for (auto entity : m_new_polyhedron_shapes) {
+        // The shape might've been removed or replaced.
+        if (!polyhedron_view.contains(entity)) continue;
+
         auto [polyhedron] = polyhedron_view.get(entity);
         auto [orn] = orn_view.get(entity);
         // A new `rotated_mesh` is assigned to it, replacing another reference
@@ -78,6 +81,8 @@ void polyhedron_shape_initializer::init_new_shapes() {
     }
 
     for (auto entity : m_new_compound_shapes) {
+        if (!compound_view.contains(entity)) continue;
+
         auto [compound] = compound_view.get(entity);
         auto [orn] = orn_view.get(entity);
         auto prev_rotated_entity = entt::entity{entt::null};
-- 
2.43.0


From 45e557ecc92f629f071e9a27fab335a980800497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:36 +0000
Subject: [PATCH 066/101] fix: bodies whose AABB is removed and assigned again
 are inserted in the broadphase once

---
 src/edyn/collision/broadphase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/edyn/collision/broadphase.cpp b/src/edyn/collision/broadphase.cpp
index 0b8ebf3..0b56404 100644
--- a/src/edyn/collision/broadphase.cpp
+++ b/src/edyn/collision/broadphase.cpp
@@ -86,6 +86,9 @@ void broadphase::init_new_aabb_entities() {
         // Entity might've been cleared.
         if (!aabb_view.contains(entity)) continue;
 
+        // AABB might've been removed and assigned again since the last update.
+        if (m_registry->all_of<tree_resident>(entity)) continue;
+
         auto &aabb = aabb_view.get<AABB>(entity);
         bool procedural = procedural_view.contains(entity);
         auto &tree = procedural ? m_tree : m_np_tree;
-- 
2.43.0


From 00cbf158ab73d5aa30bee40cee1f625e1408cf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:01 +0000
Subject: [PATCH 067/101] fix: entities of rotated meshes are destroyed when a
 compound is replaced

---
 src/edyn/util/polyhedron_shape_initializer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/edyn/util/polyhedron_shape_initializer.cpp b/src/edyn/util/polyhedron_shape_initializer.cpp
index 6bccce3..207c58f 100644
--- a/src/edyn/util/polyhedron_shape_initializer.cpp
+++ b/src/edyn/util/polyhedron_shape_initializer.cpp
@@ -77,7 +77,8 @@ void polyhedron_shape_initializer::init_new_shapes() {
         auto rotated = make_rotated_mesh(*polyhedron.mesh, orn);
         auto rotated_ptr = std::make_unique<rotated_mesh>(std::move(rotated));
         polyhedron.rotated = rotated_ptr.get();
-        m_registry->emplace_or_replace<rotated_mesh_list>(entity, polyhedron.mesh, std::move(rotated_ptr));
+        m_registry->remove<rotated_mesh_list>(entity);
+        m_registry->emplace<rotated_mesh_list>(entity, polyhedron.mesh, std::move(rotated_ptr));
     }
 
     for (auto entity : m_new_compound_shapes) {
@@ -87,6 +88,9 @@ void polyhedron_shape_initializer::init_new_shapes() {
         auto [orn] = orn_view.get(entity);
         auto prev_rotated_entity = entt::entity{entt::null};
 
+        // Destroy the rotated meshes of the shape that is being replaced.
+        m_registry->remove<rotated_mesh_list>(entity);
+
         for (auto &node : compound.nodes) {
             if (!std::holds_alternative<polyhedron_shape>(node.shape_var)) continue;
 
@@ -100,7 +104,7 @@ void polyhedron_shape_initializer::init_new_shapes() {
             polyhedron.rotated = rotated_ptr.get();
 
             if (prev_rotated_entity == entt::null) {
-                m_registry->emplace_or_replace<rotated_mesh_list>(entity, polyhedron.mesh, std::move(rotated_ptr), node.orientation);
+                m_registry->emplace<rotated_mesh_list>(entity, polyhedron.mesh, std::move(rotated_ptr), node.orientation);
                 prev_rotated_entity = entity;
             } else {
                 auto next = m_registry->create();
-- 
2.43.0


From 4efaa78acb553d7055ebfe52e2af8bc65e074008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:17 +0000
Subject: [PATCH 068/101] fix: sleeping manifolds are left alone when detecting
 collisions in parallel

---
 src/edyn/collision/narrowphase.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/edyn/collision/narrowphase.cpp b/src/edyn/collision/narrowphase.cpp
index c67f928..488fa8f 100644
--- a/src/edyn/collision/narrowphase.cpp
+++ b/src/edyn/collision/narrowphase.cpp
@@ -42,7 +42,7 @@ void narrowphase::update(bool mt) {
 void narrowphase::detect_collision_parallel_range(unsigned start, unsigned end) {
     auto &registry = *m_registry;
     auto dt = registry.ctx().get<settings>().fixed_dt;
-    auto manifold_view = registry.view<contact_manifold>();
+    auto manifold_view = registry.view<contact_manifold>(exclude_sleeping_disabled);
     auto first = manifold_view.begin();
     std::advance(first, start);
 
@@ -65,7 +65,7 @@ void narrowphase::detect_collision_parallel_range(unsigned start, unsigned end)
 
 void narrowphase::detect_collision_parallel() {
     // Resize result collection vectors to allocate one slot for each iteration.
-    auto num_manifolds = m_registry->view<contact_manifold>().size();
+    auto num_manifolds = calculate_view_size(m_registry->view<contact_manifold>(exclude_sleeping_disabled));
     m_cp_construction_infos.resize(num_manifolds);
     m_cp_destruction_infos.resize(num_manifolds);
 
@@ -74,9 +74,10 @@ void narrowphase::detect_collision_parallel() {
 }
 
 void narrowphase::finish_detect_collision() {
-    auto num_manifolds = m_registry->view<contact_manifold>().size();
+    auto active_view = m_registry->view<contact_manifold>(exclude_sleeping_disabled);
     auto manifold_view = m_registry->view<contact_manifold, contact_manifold_state>();
-    auto it = manifold_view.begin();
+    auto num_manifolds = calculate_view_size(active_view);
+    auto it = active_view.begin();
 
     // Destroy contact points.
     for (size_t i = 0; i < num_manifolds; ++i, ++it) {
@@ -88,7 +89,7 @@ void narrowphase::finish_detect_collision() {
     }
 
     // Create contact points.
-    it = manifold_view.begin();
+    it = active_view.begin();
 
     auto &async_settings = m_registry->ctx().get<const settings>().async_settings;
     const auto transient = async_settings ? async_settings->contact_points_transient : std::optional<edyn::transient>{};
-- 
2.43.0


From 0a7d68a810de251fb5d9205574f2626f1cc100e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:20 +0000
Subject: [PATCH 069/101] fix: kinematic bodies that become static are found
 where they are

---
 src/edyn/collision/broadphase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/edyn/collision/broadphase.cpp b/src/edyn/collision/broadphase.cpp
index 0b56404..eea940b 100644
--- a/src/edyn/collision/broadphase.cpp
+++ b/src/edyn/collision/broadphase.cpp
@@ -253,6 +253,10 @@ void broadphase::set_procedural(entt::entity entity, bool procedural) {
     auto &resident = m_registry->get<tree_resident>(entity);
 
     if (resident.procedural == procedural) {
+        // The AABB of static bodies does not change thus the node of a kinematic
+        // body that becomes static must be brought up to date.
+        auto &tree = procedural ? m_tree : m_np_tree;
+        tree.move(resident.id, m_registry->get<AABB>(entity));
         return;
     }
 
-- 
2.43.0


From 1d0ecdfe0ce079e19b616499d4c96036112d8bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:31 +0000
Subject: [PATCH 070/101] fix: the origin of a rigid body is removed when it is
 cleared

---
 src/edyn/edyn.cpp           | 2 +-
 src/edyn/util/rigidbody.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/edyn/edyn.cpp b/src/edyn/edyn.cpp
index ad4daaa..f1e1583 100644
--- a/src/edyn/edyn.cpp
+++ b/src/edyn/edyn.cpp
@@ -176,7 +176,7 @@ void detach(entt::registry &registry) {
     registry_clear(registry, shapes_tuple);
     registry_clear(registry, constraints_tuple);
 
-    registry.clear<material, gravity, center_of_mass>();
+    registry.clear<material, gravity, center_of_mass, origin>();
 
     registry.clear<linvel, angvel>();
     registry.clear<mass, mass_inv>();
diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index c228869..69ae332 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -210,7 +210,7 @@ void clear_rigidbody(entt::registry &registry, entt::entity entity) {
         registry.remove<roll_direction>(entity);
     }
 
-    registry.remove<material, gravity, center_of_mass>(entity);
+    registry.remove<material, gravity, center_of_mass, origin>(entity);
 
     registry.remove<linvel, angvel>(entity);
     registry.remove<mass, mass_inv>(entity);
-- 
2.43.0


From e7f4c69fe0445bcb916e756c72c047992eb96dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:53 +0000
Subject: [PATCH 071/101] fix: contact points are destroyed when detaching

---
 src/edyn/edyn.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/edyn/edyn.cpp b/src/edyn/edyn.cpp
index f1e1583..1455a3e 100644
--- a/src/edyn/edyn.cpp
+++ b/src/edyn/edyn.cpp
@@ -2,6 +2,7 @@
 #include "edyn/collision/broadphase.hpp"
 #include "edyn/collision/contact_manifold.hpp"
 #include "edyn/collision/contact_manifold_map.hpp"
+#include "edyn/collision/contact_point.hpp"
 #include "edyn/collision/narrowphase.hpp"
 #include "edyn/comp/child_list.hpp"
 #include "edyn/comp/collision_exclusion.hpp"
@@ -191,9 +192,13 @@ void detach(entt::registry &registry) {
     registry.clear<tree_resident>();
     registry.clear<null_constraint>();
 
-    // All manifolds are created by the engine thus destroy all entities.
+    // All manifolds and contact points are created by the engine thus destroy
+    // all entities.
     auto manifold_view = registry.view<contact_manifold>();
     registry.destroy(manifold_view.begin(), manifold_view.end());
+
+    auto contact_view = registry.view<contact_point>();
+    registry.destroy(contact_view.begin(), contact_view.end());
 }
 
 scalar get_fixed_dt(const entt::registry &registry) {
-- 
2.43.0


From 293888c6f1e5481ef80449ac92a13beb8d35585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:31 +0000
Subject: [PATCH 072/101] fix: rotated meshes are removed when detaching

---
 src/edyn/util/polyhedron_shape_initializer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/edyn/util/polyhedron_shape_initializer.cpp b/src/edyn/util/polyhedron_shape_initializer.cpp
index 207c58f..2e01053 100644
--- a/src/edyn/util/polyhedron_shape_initializer.cpp
+++ b/src/edyn/util/polyhedron_shape_initializer.cpp
@@ -38,6 +38,8 @@ polyhedron_shape_initializer::~polyhedron_shape_initializer() {
             }
         }
     }
+
+    m_registry->clear<rotated_mesh_list>();
 }
 
 void polyhedron_shape_initializer::on_construct_polyhedron_shape(entt::registry &registry, entt::entity entity) {
-- 
2.43.0


From 498f2d7ee2e0fa0dcbdd6e9a725ccdbe9039da18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:45 +0000
Subject: [PATCH 073/101] fix: time that passes while a sequential simulation
 is paused is not simulated afterwards

---
 src/edyn/simulation/stepper_sequential.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/edyn/simulation/stepper_sequential.cpp b/src/edyn/simulation/stepper_sequential.cpp
index ee0313b..723ffa3 100644
--- a/src/edyn/simulation/stepper_sequential.cpp
+++ b/src/edyn/simulation/stepper_sequential.cpp
@@ -39,6 +39,8 @@ void stepper_sequential::update(double time) {
         m_island_manager.update(m_last_time);
         EDYN_PROFILE_MEASURE(prof_time, profile, islands);
         snap_presentation(*m_registry);
+        // Time does not pass for the simulation while it is paused.
+        m_last_time = time;
         return;
     }
 
-- 
2.43.0


From 5b0e4688c318c13a6cff30063f845ef9a3d3b7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:10 +0000
Subject: [PATCH 074/101] fix: point constraint with friction and no relative
 spin reads past its impulses

---
 src/edyn/constraints/point_constraint.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/edyn/constraints/point_constraint.cpp b/src/edyn/constraints/point_constraint.cpp
index 282ebf4..d3e81d1 100644
--- a/src/edyn/constraints/point_constraint.cpp
+++ b/src/edyn/constraints/point_constraint.cpp
@@ -52,8 +52,11 @@ void point_constraint::store_applied_impulses(const std::vector<scalar> &impulse
         applied_impulse[i] = impulses[row_idx++];
     }
 
-    if (friction_torque > 0) {
+    // There's no friction row if the relative angular velocity was zero.
+    if (friction_torque > 0 && row_idx < impulses.size()) {
         applied_friction_impulse = impulses[row_idx++];
+    } else {
+        applied_friction_impulse = 0;
     }
 }
 
-- 
2.43.0


From 95d96342b8f424ad7e23e9e80fe5fc1f0e219279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:34 +0000
Subject: [PATCH 075/101] fix: bend damping of cv joint depends on its own rate
 instead of the twist damping

---
 src/edyn/constraints/cvjoint_constraint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/constraints/cvjoint_constraint.cpp b/src/edyn/constraints/cvjoint_constraint.cpp
index c16d1f9..3c8652c 100644
--- a/src/edyn/constraints/cvjoint_constraint.cpp
+++ b/src/edyn/constraints/cvjoint_constraint.cpp
@@ -193,7 +193,7 @@ void cvjoint_constraint::prepare(
 
         auto friction_impulse = bend_friction_torque * dt;
 
-        if (twist_damping > 0) {
+        if (bend_damping > 0) {
             friction_impulse += std::abs(angspd_rel) * bend_damping * dt;
         }
 
-- 
2.43.0


From d91d5234b3ad2aa6b132cf8ab2bb0fbd00f9b077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:36 +0000
Subject: [PATCH 076/101] fix: generic constraint locks an angle at the given
 value instead of zero

---
 src/edyn/constraints/generic_constraint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/constraints/generic_constraint.cpp b/src/edyn/constraints/generic_constraint.cpp
index 7bea800..2e24b87 100644
--- a/src/edyn/constraints/generic_constraint.cpp
+++ b/src/edyn/constraints/generic_constraint.cpp
@@ -184,7 +184,7 @@ void generic_constraint::prepare(
                 options.error = limit_error / dt;
                 options.restitution = dof.limit_restitution;
             } else {
-                options.error = -dof.current_angle / dt;
+                options.error = (dof.angle_min - dof.current_angle) / dt;
                 row.lower_limit = -large_scalar;
                 row.upper_limit = large_scalar;
             }
-- 
2.43.0


From 4b88b91d9f82dd7497fb44afa4730d033c3577c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:34 +0000
Subject: [PATCH 077/101] fix: roll direction of the second body is rotated by
 its own orientation

---
 src/edyn/constraints/contact_extras_constraint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/constraints/contact_extras_constraint.cpp b/src/edyn/constraints/contact_extras_constraint.cpp
index 39048fa..9efcd31 100644
--- a/src/edyn/constraints/contact_extras_constraint.cpp
+++ b/src/edyn/constraints/contact_extras_constraint.cpp
@@ -49,7 +49,7 @@ void contact_extras_constraint::prepare(constraint_row_prep_cache &cache, scalar
             // thus preventing impulses in the undesired directions.
             for (auto j = 0; j < 2; ++j) {
                 if (roll_dir[j] != vector3_zero) {
-                    auto roll_dir_world = rotate(bodyA.orn, roll_dir[j]);
+                    auto roll_dir_world = rotate(j == 0 ? bodyA.orn : bodyB.orn, roll_dir[j]);
                     axis *= dot(roll_dir_world, axis);
                 }
             }
-- 
2.43.0


From e3c4d5a08376bde34d185765720d6eba57d5f34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:53 +0000
Subject: [PATCH 078/101] fix: rolling friction of cylinders and capsules does
 not depend on their heading

---
 .../constraints/contact_extras_constraint.cpp | 30 ++++++++++---------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/edyn/constraints/contact_extras_constraint.cpp b/src/edyn/constraints/contact_extras_constraint.cpp
index 9efcd31..cb0bcc1 100644
--- a/src/edyn/constraints/contact_extras_constraint.cpp
+++ b/src/edyn/constraints/contact_extras_constraint.cpp
@@ -38,22 +38,24 @@ void contact_extras_constraint::prepare(constraint_row_prep_cache &cache, scalar
         auto &roll_row = cache.add_rolling_row();
         roll_row.friction_coefficient = roll_friction;
 
-        vector3 tangents[2];
-        plane_space(normal, tangents[0], tangents[1]);
-
-        for (auto i = 0; i < 2; ++i) {
-            auto axis = tangents[i];
-
-            // If any of the bodies has a rolling direction, scale down the
-            // axis by the projection of the roll direction onto the axis,
-            // thus preventing impulses in the undesired directions.
-            for (auto j = 0; j < 2; ++j) {
-                if (roll_dir[j] != vector3_zero) {
-                    auto roll_dir_world = rotate(j == 0 ? bodyA.orn : bodyB.orn, roll_dir[j]);
-                    axis *= dot(roll_dir_world, axis);
-                }
+        vector3 axes[2];
+        plane_space(normal, axes[0], axes[1]);
+
+        // If any of the bodies has a rolling direction, only apply friction
+        // along its projection onto the contact plane, thus preventing impulses
+        // in the undesired directions.
+        for (auto j = 0; j < 2; ++j) {
+            if (roll_dir[j] != vector3_zero) {
+                auto roll_dir_world = rotate(j == 0 ? bodyA.orn : bodyB.orn, roll_dir[j]);
+                auto roll_axis = project_direction(roll_dir_world, normal);
+                auto has_axis = axes[1] == vector3_zero;
+                axes[0] = has_axis ? roll_axis * dot(roll_axis, axes[0]) : roll_axis;
+                axes[1] = vector3_zero;
             }
+        }
 
+        for (auto i = 0; i < 2; ++i) {
+            auto axis = axes[i];
             auto &row_i = roll_row.row[i];
             row_i.J = {vector3_zero, axis, vector3_zero, -axis};
             row_i.impulse = rolling_friction_impulse[i];
-- 
2.43.0


From 3aef7ec2f5a84952b9bfd225956d6482c6273e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:26 +0000
Subject: [PATCH 079/101] fix: the initial presentation position of a body with
 a center of mass offset

---
 src/edyn/util/rigidbody.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index 69ae332..c9cd585 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -97,7 +97,8 @@ void make_rigidbody(entt::entity entity, entt::registry &registry, const rigidbo
     }
 
     if (def.presentation && def.kind == rigidbody_kind::rb_dynamic) {
-        registry.emplace<present_position>(entity, def.position);
+        // The position is different from `def.position` if there's a center of mass offset.
+        registry.emplace<present_position>(entity, registry.get<position>(entity));
         registry.emplace<present_orientation>(entity, def.orientation);
     }
 
-- 
2.43.0


From a4372467f2aff8513e20aaf212aab5a3cb01abc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:26 +0000
Subject: [PATCH 080/101] fix: the new inertia of a body takes effect at once

---
 src/edyn/util/rigidbody.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index c9cd585..b1d5b21 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -310,6 +310,10 @@ void set_rigidbody_inertia(entt::registry &registry, entt::entity entity, const
     auto I_inv = inverse_matrix_symmetric(inertia);
     registry.replace<edyn::inertia>(entity, inertia);
     registry.replace<edyn::inertia_inv>(entity, I_inv);
+
+    auto basis = to_matrix3x3(registry.get<orientation>(entity));
+    auto I_inv_world = basis * I_inv * transpose(basis);
+    registry.replace<edyn::inertia_world_inv>(entity, I_inv_world);
 }
 
 void set_rigidbody_friction(entt::registry &registry, entt::entity entity, scalar friction) {
-- 
2.43.0


From 58469db89325bd92574e3ec9cc81f2c9f3ad0870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:26 +0000
Subject: [PATCH 081/101] fix: kinematic bodies turn the short way and never
 with an undefined velocity

---
 src/edyn/util/rigidbody.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index b1d5b21..0c2ef98 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -266,9 +266,14 @@ void set_kinematic_orientation(entt::registry &registry, entt::entity entity, co
         // Rotation that takes current orientation to new.
         auto r = orn * conjugate(curorn);
 
+        // `r` and `-r` are the same rotation. Take the shortest way.
+        if (r.w < 0) {
+            r = r * scalar(-1);
+        }
+
         // Calculate angular velocity doing the inverse of what
         // edyn::quaternion::integrate does.
-        const auto ws = std::acos(r.w) / (0.5f * dt);
+        const auto ws = std::acos(std::min(r.w, scalar(1))) / (0.5f * dt);
         const auto min_ws = scalar(0.001);
         constexpr auto half = scalar(0.5);
         scalar t;
-- 
2.43.0


From b8a25dcc2921ef81f5bfa4046c7dca653a199e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:26 +0000
Subject: [PATCH 082/101] fix: the AABB of a body is that of its new shape

---
 include/edyn/collision/broadphase.hpp | 1 +
 src/edyn/collision/broadphase.cpp     | 9 +++++++++
 src/edyn/util/rigidbody.cpp           | 9 ++++-----
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/edyn/collision/broadphase.hpp b/include/edyn/collision/broadphase.hpp
index 420ab0b..55b303b 100644
--- a/include/edyn/collision/broadphase.hpp
+++ b/include/edyn/collision/broadphase.hpp
@@ -26,6 +26,7 @@ class broadphase final {
     void finish_collide();
 
     void on_construct_aabb(entt::registry &, entt::entity);
+    void on_update_aabb(entt::registry &, entt::entity);
     void on_destroy_aabb(entt::registry &, entt::entity);
     void on_destroy_tree_resident(entt::registry &, entt::entity);
     void on_construct_island_aabb(entt::registry &, entt::entity);
diff --git a/src/edyn/collision/broadphase.cpp b/src/edyn/collision/broadphase.cpp
index eea940b..6f4d440 100644
--- a/src/edyn/collision/broadphase.cpp
+++ b/src/edyn/collision/broadphase.cpp
@@ -27,6 +27,7 @@ broadphase::broadphase(entt::registry &registry)
     : m_registry(&registry)
 {
     m_connections.emplace_back(registry.on_construct<AABB>().connect<&broadphase::on_construct_aabb>(*this));
+    m_connections.emplace_back(registry.on_update<AABB>().connect<&broadphase::on_update_aabb>(*this));
     m_connections.emplace_back(registry.on_destroy<AABB>().connect<&broadphase::on_destroy_aabb>(*this));
     m_connections.emplace_back(registry.on_destroy<tree_resident>().connect<&broadphase::on_destroy_tree_resident>(*this));
     m_connections.emplace_back(registry.on_construct<island_AABB>().connect<&broadphase::on_construct_island_aabb>(*this));
@@ -45,6 +46,14 @@ void broadphase::on_construct_aabb(entt::registry &, entt::entity entity) {
     m_new_aabb_entities.push_back(entity);
 }
 
+void broadphase::on_update_aabb(entt::registry &registry, entt::entity entity) {
+    // AABBs of static entities are not moved in every update.
+    if (auto *node = registry.try_get<tree_resident>(entity)) {
+        auto &tree = node->procedural ? m_tree : m_np_tree;
+        tree.move(node->id, registry.get<AABB>(entity));
+    }
+}
+
 void broadphase::on_destroy_aabb(entt::registry &registry, entt::entity entity) {
     // No AABB means no longer being present in the broadphase AABB tree.
     // This will trigger `on_destroy_tree_resident` which will do the cleanup.
diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index 0c2ef98..e079406 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -450,13 +450,12 @@ void rigidbody_assign_shape(entt::registry &registry, entt::entity entity, Shape
         // This is an amorphous rigid body. Assign new shape.
         registry.emplace<ShapeType>(entity, shape);
         registry.emplace<shape_index>(entity, index);
-
-        const auto &pos = registry.get<position>(entity);
-        const auto &orn = registry.get<orientation>(entity);
-        auto aabb = shape_aabb(shape, pos, orn);
-        registry.emplace<AABB>(entity, aabb);
     }
 
+    const auto origin = get_rigidbody_origin(registry, entity);
+    const auto &orn = registry.get<orientation>(entity);
+    registry.emplace_or_replace<AABB>(entity, shape_aabb(shape, origin, orn));
+
     // Assign tag for dynamic rolling shapes.
     if (registry.all_of<dynamic_tag>(entity)) {
         if constexpr(tuple_has_type<ShapeType, rolling_shapes_tuple_t>::value) {
-- 
2.43.0


From 71b17c63ca4aa6ba5d16bac6905d64ec5a1e8077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:27 +0000
Subject: [PATCH 083/101] fix: static bodies can have a center of mass offset

---
 src/edyn/util/rigidbody.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index e079406..230ded0 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -524,10 +524,10 @@ void rigidbody_set_kind(entt::registry &registry, entt::entity entity, rigidbody
 namespace edyn::internal {
 
 void apply_center_of_mass(entt::registry &registry, entt::entity entity, const vector3 &com) {
-    auto body_view = registry.view<position, orientation, linvel, angvel>();
+    auto body_view = registry.view<position, orientation>();
     auto com_view = registry.view<center_of_mass>();
 
-    auto [pos, orn, linvel, angvel] = body_view.get<position, orientation, edyn::linvel, edyn::angvel>(entity);
+    auto [pos, orn] = body_view.get<position, orientation>(entity);
     auto com_old = vector3_zero;
     auto has_com = com_view.contains(entity);
 
@@ -539,7 +539,12 @@ void apply_center_of_mass(entt::registry &registry, entt::entity entity, const v
     // since they're stored with respect to the center of mass.
     auto origin = to_world_space(-com_old, pos, orn);
     auto com_world = to_world_space(com, origin, orn);
-    linvel += cross(angvel, com_world - pos);
+
+    // Static bodies do not have velocity.
+    if (auto *linvel = registry.try_get<edyn::linvel>(entity)) {
+        *linvel += cross(registry.get<angvel>(entity), com_world - pos);
+    }
+
     pos = com_world;
 
     if (com != vector3_zero) {
-- 
2.43.0


From 0cf81f61e7c3179aed6aa6df89ebbc692ef1fc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:54 +0000
Subject: [PATCH 084/101] fix: islands solved in parallel do not share the
 velocities of bodies that aren't procedural

---
 include/edyn/dynamics/row_cache.hpp | 10 ++++++++++
 src/edyn/dynamics/solver.cpp        | 15 ++++-----------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/edyn/dynamics/row_cache.hpp b/include/edyn/dynamics/row_cache.hpp
index a77dcfc..494855e 100644
--- a/include/edyn/dynamics/row_cache.hpp
+++ b/include/edyn/dynamics/row_cache.hpp
@@ -4,6 +4,8 @@
 #include <type_traits>
 #include <vector>
 #include <tuple>
+#include "edyn/comp/delta_angvel.hpp"
+#include "edyn/comp/delta_linvel.hpp"
 #include "edyn/config/config.h"
 #include "edyn/constraints/constraint_row.hpp"
 #include "edyn/constraints/constraint_row_options.hpp"
@@ -86,6 +88,12 @@ struct constraint_row_prep_cache {
     // are "consumed" per constraint.
     uint8_t current_constraint_index;
 
+    // Delta velocities assigned to the rows whose bodies aren't procedural. The
+    // solver always adds zero to them. They must not be shared among islands
+    // since these can be solved in parallel.
+    delta_linvel dummy_dv;
+    delta_angvel dummy_dw;
+
     constraint_row_prep_cache() {
         clear();
     }
@@ -167,6 +175,8 @@ struct constraint_row_prep_cache {
     }
 
     void clear() {
+        dummy_dv = vector3_zero;
+        dummy_dw = vector3_zero;
         num_rows = 0;
         num_constraints = 0;
         current_constraint_index = 0;
diff --git a/src/edyn/dynamics/solver.cpp b/src/edyn/dynamics/solver.cpp
index 2fc68af..610d983 100644
--- a/src/edyn/dynamics/solver.cpp
+++ b/src/edyn/dynamics/solver.cpp
@@ -62,9 +62,6 @@ solver::~solver() {
     m_registry->clear<constraint_row_prep_cache>();
 }
 
-static thread_local delta_linvel dummy_dv {vector3_zero};
-static thread_local delta_angvel dummy_dw {vector3_zero};
-
 template<typename View, typename Func>
 auto make_view_for_each_task_func(View &view, Func &func) {
     return [&](unsigned start, unsigned end) {
@@ -118,8 +115,8 @@ void invoke_prepare_constraint(entt::registry &registry, entt::entity entity, C
         dvA = &body_view.template get<delta_linvel>(con.body[0]);
         dwA = &body_view.template get<delta_angvel>(con.body[0]);
     } else {
-        dvA = &dummy_dv;
-        dwA = &dummy_dw;
+        dvA = &cache.dummy_dv;
+        dwA = &cache.dummy_dw;
     }
 
     if (procedural_view.contains(con.body[1])) {
@@ -142,8 +139,8 @@ void invoke_prepare_constraint(entt::registry &registry, entt::entity entity, C
         dvB = &body_view.template get<delta_linvel>(con.body[1]);
         dwB = &body_view.template get<delta_angvel>(con.body[1]);
     } else {
-        dvB = &dummy_dv;
-        dwB = &dummy_dw;
+        dvB = &cache.dummy_dv;
+        dwB = &cache.dummy_dw;
     }
 
     auto originA = origin_view.contains(con.body[0]) ?
@@ -196,10 +193,6 @@ static void prepare_constraints(entt::registry &registry, scalar dt, bool mt) {
         }, con_view_tuple);
     };
 
-    // Ensure dummy delta velocities are always zero.
-    dummy_dv = vector3_zero;
-    dummy_dw = vector3_zero;
-
     const size_t max_sequential_size = 4;
     auto num_constraints = calculate_view_size(cache_view);
 
-- 
2.43.0


From d7e4dd29dae40d7b274a9d493066c954a02c9dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:30 +0000
Subject: [PATCH 085/101] fix: solving position constraints does not write to
 bodies shared among islands

---
 include/edyn/dynamics/position_solver.hpp | 55 ++++++++++++-----------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/include/edyn/dynamics/position_solver.hpp b/include/edyn/dynamics/position_solver.hpp
index bb7a7c2..9499502 100644
--- a/include/edyn/dynamics/position_solver.hpp
+++ b/include/edyn/dynamics/position_solver.hpp
@@ -17,36 +17,16 @@ public:
         auto eff_mass = get_effective_mass(J, inv_mA, *inv_IA, inv_mB, *inv_IB);
         auto correction = error * error_correction_rate * eff_mass;
 
-        // Apply position correction.
-        *posA += inv_mA * J[0] * correction;
-        *posB += inv_mB * J[2] * correction;
-
-        // Use quaternion derivative to apply angular correction which should
-        // be good enough for small angles.
-        auto angular_correctionA = *inv_IA * J[1] * correction;
-        *ornA += quaternion_derivative(*ornA, angular_correctionA);
-        *ornA = normalize(*ornA);
-
-        auto angular_correctionB = *inv_IB * J[3] * correction;
-        *ornB += quaternion_derivative(*ornB, angular_correctionB);
-        *ornB = normalize(*ornB);
-
-        // Compute origins with new transforms.
-        if (originA) {
-            *originA = to_world_space(-comA, *posA, *ornA);
+        // Bodies that aren't procedural don't move and can be shared among
+        // islands that are being solved in parallel thus must not be written to.
+        if (inv_mA > 0) {
+            apply(*posA, *ornA, originA, comA, inv_mA, *inv_IA, *inv_IA_local, J[0], J[1], correction);
         }
 
-        if (originB) {
-            *originB = to_world_space(-comB, *posB, *ornB);
+        if (inv_mB > 0) {
+            apply(*posB, *ornB, originB, comB, inv_mB, *inv_IB, *inv_IB_local, J[2], J[3], correction);
         }
 
-        // Compute world space inertia with new orientation.
-        auto basisA = to_matrix3x3(*ornA);
-        *inv_IA = basisA * *inv_IA_local * transpose(basisA);
-
-        auto basisB = to_matrix3x3(*ornB);
-        *inv_IB = basisB * *inv_IB_local * transpose(basisB);
-
         max_error = std::max(std::abs(error), max_error);
     }
 
@@ -67,6 +47,29 @@ public:
     inertia_inv *inv_IA_local, *inv_IB_local;
     scalar error_correction_rate {0.2};
     scalar max_error {};
+
+private:
+    static void apply(position &pos, orientation &orn, origin *orig, const vector3 &com,
+                      scalar inv_m, inertia_world_inv &inv_I, const inertia_inv &inv_I_local,
+                      const vector3 &J_linear, const vector3 &J_angular, scalar correction) {
+        // Apply position correction.
+        pos += inv_m * J_linear * correction;
+
+        // Use quaternion derivative to apply angular correction which should
+        // be good enough for small angles.
+        auto angular_correction = inv_I * J_angular * correction;
+        orn += quaternion_derivative(orn, angular_correction);
+        orn = normalize(orn);
+
+        // Compute origin with new transform.
+        if (orig) {
+            *orig = to_world_space(-com, pos, orn);
+        }
+
+        // Compute world space inertia with new orientation.
+        auto basis = to_matrix3x3(orn);
+        inv_I = basis * inv_I_local * transpose(basis);
+    }
 };
 
 }
-- 
2.43.0


From 8baeee4da2439654cf68eecd088eeac8870b591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:32 +0000
Subject: [PATCH 086/101] fix: manifolds replicated from the simulation thread
 refer to their contact points

---
 src/edyn/util/collision_util.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/edyn/util/collision_util.cpp b/src/edyn/util/collision_util.cpp
index b0098f5..af598af 100644
--- a/src/edyn/util/collision_util.cpp
+++ b/src/edyn/util/collision_util.cpp
@@ -352,7 +352,6 @@ entt::entity create_contact_point(entt::registry &registry,
 
     manifold_state.contact_entity = contact_entity;
     ++manifold_state.num_points;
-    registry.patch<contact_manifold_state>(manifold_entity);
 
     // Assign material properties to contact point.
     if (registry.all_of<material>(manifold.body[0]) && registry.all_of<material>(manifold.body[1])) {
@@ -391,6 +390,10 @@ entt::entity create_contact_point(entt::registry &registry,
         registry.emplace<transient>(contact_entity, *transient_contact);
     }
 
+    // Patch after the contact point is complete so that where changes to the
+    // registry are replicated, the contact entity exists when it's referred to.
+    registry.patch<contact_manifold_state>(manifold_entity);
+
     return contact_entity;
 }
 
-- 
2.43.0


From b19369eb391de5b040b3c8eeda406a29819ad670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:57 +0000
Subject: [PATCH 087/101] fix: contacts of a body destroyed before they arrive
 in the main registry don't stay there

---
 src/edyn/simulation/simulation_worker.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/edyn/simulation/simulation_worker.cpp b/src/edyn/simulation/simulation_worker.cpp
index 12dc573..c1ac6dc 100644
--- a/src/edyn/simulation/simulation_worker.cpp
+++ b/src/edyn/simulation/simulation_worker.cpp
@@ -162,6 +162,13 @@ void simulation_worker::on_construct_shared_entity(entt::registry &registry, ent
 void simulation_worker::on_destroy_shared_entity(entt::registry &registry, entt::entity entity) {
     m_op_observer->unobserve(entity);
 
+    if (m_importing) {
+        // The observer is inactive. When a rigid body is destroyed in the main
+        // registry, constraints which involve it are destroyed here as well, e.g.
+        // contacts which had not arrived in the main registry by that time.
+        m_op_builder->destroy(entity);
+    }
+
     if (m_entity_map.contains_local(entity)) {
         m_entity_map.erase_local(entity);
     }
-- 
2.43.0


From ed4dcfa9bcbcc8b516887cf7b122c4ffa6dfcc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:19 +0000
Subject: [PATCH 088/101] fix: query_aabb_async is defined

---
 src/edyn/collision/query_aabb.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/edyn/collision/query_aabb.cpp b/src/edyn/collision/query_aabb.cpp
index 3b2c77f..da1b18d 100644
--- a/src/edyn/collision/query_aabb.cpp
+++ b/src/edyn/collision/query_aabb.cpp
@@ -3,11 +3,11 @@
 
 namespace edyn {
 
-query_aabb_id_type query_island_aabb_async(entt::registry &registry, const AABB &aabb,
-                                           const query_aabb_delegate_type &delegate,
-                                           bool query_procedural,
-                                           bool query_non_procedural,
-                                           bool query_islands) {
+query_aabb_id_type query_aabb_async(entt::registry &registry, const AABB &aabb,
+                                    const query_aabb_delegate_type &delegate,
+                                    bool query_procedural,
+                                    bool query_non_procedural,
+                                    bool query_islands) {
     auto &stepper = registry.ctx().get<stepper_async>();
     return stepper.query_aabb(aabb, delegate, query_procedural, query_non_procedural, query_islands);
 }
-- 
2.43.0


From 827803e33932f8bacda5f1fd49a5dfcf0b846984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:55 +0000
Subject: [PATCH 089/101] fix: detaching an asynchronous simulation leaves no
 islands behind

---
 src/edyn/edyn.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/edyn/edyn.cpp b/src/edyn/edyn.cpp
index 1455a3e..68c1e92 100644
--- a/src/edyn/edyn.cpp
+++ b/src/edyn/edyn.cpp
@@ -199,6 +199,10 @@ void detach(entt::registry &registry) {
 
     auto contact_view = registry.view<contact_point>();
     registry.destroy(contact_view.begin(), contact_view.end());
+
+    // Islands of an asynchronous simulation are replicated in this registry.
+    auto island_view = registry.view<island_tag>();
+    registry.destroy(island_view.begin(), island_view.end());
 }
 
 scalar get_fixed_dt(const entt::registry &registry) {
-- 
2.43.0


From 6bf4597e3dab7f7a80b3d533ea15b3497c2e4aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:55 +0000
Subject: [PATCH 090/101] fix: the center of mass of a new body can be set in
 the asynchronous mode

---
 src/edyn/simulation/stepper_async.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/edyn/simulation/stepper_async.cpp b/src/edyn/simulation/stepper_async.cpp
index 4525a41..59a383f 100644
--- a/src/edyn/simulation/stepper_async.cpp
+++ b/src/edyn/simulation/stepper_async.cpp
@@ -331,6 +331,9 @@ void stepper_async::material_table_changed() {
 }
 
 void stepper_async::set_center_of_mass(entt::entity entity, const vector3 &com) {
+    // Must sync existing component changes since the rigid body could've been
+    // created after the last update.
+    sync();
     send_message_to_worker<msg::set_com>(entity, com);
 }
 
-- 
2.43.0


From ab372539c6f021625646fbfdb81e26902daa929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:30 +0000
Subject: [PATCH 091/101] fix: changing the center of mass replicates the
 position and velocity it changes

---
 src/edyn/util/rigidbody.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index 230ded0..93e9044 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -543,9 +543,11 @@ void apply_center_of_mass(entt::registry &registry, entt::entity entity, const v
     // Static bodies do not have velocity.
     if (auto *linvel = registry.try_get<edyn::linvel>(entity)) {
         *linvel += cross(registry.get<angvel>(entity), com_world - pos);
+        registry.patch<edyn::linvel>(entity);
     }
 
     pos = com_world;
+    registry.patch<position>(entity);
 
     if (com != vector3_zero) {
         if (has_com) {
-- 
2.43.0


From a8b78e6be0c0b0b5eb82c8b1652ce201463efb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:19 +0000
Subject: [PATCH 092/101] fix: several manifolds can arrive after one of their
 bodies is destroyed

---
 src/edyn/collision/contact_manifold_map.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/edyn/collision/contact_manifold_map.cpp b/src/edyn/collision/contact_manifold_map.cpp
index daeacd4..30a5c3f 100644
--- a/src/edyn/collision/contact_manifold_map.cpp
+++ b/src/edyn/collision/contact_manifold_map.cpp
@@ -33,6 +33,13 @@ entt::entity contact_manifold_map::get(entt::entity first, entt::entity second)
 
 void contact_manifold_map::on_construct_contact_manifold(entt::registry &registry, entt::entity entity) {
     auto &manifold = registry.get<contact_manifold>(entity);
+
+    // A manifold that is imported into this registry could involve a rigid body
+    // that has already been destroyed here.
+    if (manifold.body[0] == entt::null || manifold.body[1] == entt::null) {
+        return;
+    }
+
     // Insert all permutations.
     auto p = std::make_pair(manifold.body[0], manifold.body[1]);
     auto q = std::make_pair(manifold.body[1], manifold.body[0]);
-- 
2.43.0


From 387ead5d5c644d4a117f153b1527c762c5c458e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:08 +0000
Subject: [PATCH 093/101] fix: bodies created over the network have an origin
 and their AABB uses it

---
 src/edyn/networking/sys/client_side.cpp | 18 +++++++++++++++---
 src/edyn/networking/sys/server_side.cpp | 16 +++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/edyn/networking/sys/client_side.cpp b/src/edyn/networking/sys/client_side.cpp
index e484ada..f7804c5 100644
--- a/src/edyn/networking/sys/client_side.cpp
+++ b/src/edyn/networking/sys/client_side.cpp
@@ -1,12 +1,17 @@
 #include "edyn/networking/sys/client_side.hpp"
 #include "edyn/collision/contact_manifold.hpp"
+#include "edyn/comp/center_of_mass.hpp"
 #include "edyn/comp/island.hpp"
+#include "edyn/comp/orientation.hpp"
+#include "edyn/comp/origin.hpp"
+#include "edyn/comp/position.hpp"
 #include "edyn/config/config.h"
 #include "edyn/config/execution_mode.hpp"
 #include "edyn/constraints/constraint.hpp"
 #include "edyn/context/profile.hpp"
 #include "edyn/context/registry_operation_context.hpp"
 #include "edyn/dynamics/material_mixing.hpp"
+#include "edyn/math/transform.hpp"
 #include "edyn/networking/comp/action_history.hpp"
 #include "edyn/networking/comp/asset_ref.hpp"
 #include "edyn/networking/comp/discontinuity.hpp"
@@ -479,13 +484,20 @@ static void process_packet(entt::registry &registry, const packet::create_entity
     // Create nodes and edges in entity graph, assign networked tags and
     // dependent components which are not networked.
     for (auto entity : entities_created) {
-        // Assign computed properties such as AABB and inverse mass.
-        if (registry.any_of<shape_index>(entity)) {
+        // Assign computed properties such as origin, AABB and inverse mass.
+        if (auto *com = registry.try_get<center_of_mass>(entity); com && !registry.all_of<edyn::origin>(entity)) {
             auto &pos = registry.get<position>(entity);
             auto &orn = registry.get<orientation>(entity);
+            registry.emplace<edyn::origin>(entity, to_world_space(-*com, pos, orn));
+        }
+
+        if (registry.any_of<shape_index>(entity)) {
+            auto &orn = registry.get<orientation>(entity);
+            auto origin = registry.all_of<edyn::origin>(entity) ?
+                vector3(registry.get<edyn::origin>(entity)) : vector3(registry.get<position>(entity));
 
             visit_shape(registry, entity, [&](auto &&shape) {
-                auto aabb = shape_aabb(shape, pos, orn);
+                auto aabb = shape_aabb(shape, origin, orn);
                 registry.emplace<AABB>(entity, aabb);
             });
         }
diff --git a/src/edyn/networking/sys/server_side.cpp b/src/edyn/networking/sys/server_side.cpp
index e0c2ad7..ef41f65 100644
--- a/src/edyn/networking/sys/server_side.cpp
+++ b/src/edyn/networking/sys/server_side.cpp
@@ -1,14 +1,17 @@
 #include "edyn/networking/sys/server_side.hpp"
+#include "edyn/comp/center_of_mass.hpp"
 #include "edyn/comp/graph_edge.hpp"
 #include "edyn/comp/graph_node.hpp"
 #include "edyn/comp/inertia.hpp"
 #include "edyn/comp/island.hpp"
 #include "edyn/comp/mass.hpp"
+#include "edyn/comp/origin.hpp"
 #include "edyn/comp/position.hpp"
 #include "edyn/comp/orientation.hpp"
 #include "edyn/comp/tag.hpp"
 #include "edyn/constraints/constraint.hpp"
 #include "edyn/constraints/null_constraint.hpp"
+#include "edyn/math/transform.hpp"
 #include "edyn/networking/comp/action_history.hpp"
 #include "edyn/networking/comp/asset_ref.hpp"
 #include "edyn/networking/comp/asset_entry.hpp"
@@ -115,13 +118,20 @@ static void process_packet(entt::registry &registry, entt::entity client_entity,
     for (auto remote_entity : packet.entities) {
         auto local_entity = client.entity_map.at(remote_entity);
 
-        // Assign computed properties such as AABB and inverse mass.
-        if (registry.any_of<shape_index>(local_entity)) {
+        // Assign computed properties such as origin, AABB and inverse mass.
+        if (auto *com = registry.try_get<center_of_mass>(local_entity); com && !registry.all_of<edyn::origin>(local_entity)) {
             auto &pos = registry.get<position>(local_entity);
             auto &orn = registry.get<orientation>(local_entity);
+            registry.emplace<edyn::origin>(local_entity, to_world_space(-*com, pos, orn));
+        }
+
+        if (registry.any_of<shape_index>(local_entity)) {
+            auto &orn = registry.get<orientation>(local_entity);
+            auto origin = registry.all_of<edyn::origin>(local_entity) ?
+                vector3(registry.get<edyn::origin>(local_entity)) : vector3(registry.get<position>(local_entity));
 
             visit_shape(registry, local_entity, [&](auto &&shape) {
-                auto aabb = shape_aabb(shape, pos, orn);
+                auto aabb = shape_aabb(shape, origin, orn);
                 registry.emplace<AABB>(local_entity, aabb);
             });
         }
-- 
2.43.0


From abf4e65643df7044f2c0ee9699fae032a9d08574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:08 +0000
Subject: [PATCH 094/101] fix: entity maps stay correct when entities are
 destroyed or re-enter

---
 src/edyn/networking/sys/client_side.cpp               |  4 ++--
 .../util/process_update_entity_map_packet.cpp         | 11 +++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/edyn/networking/sys/client_side.cpp b/src/edyn/networking/sys/client_side.cpp
index f7804c5..6fedcb4 100644
--- a/src/edyn/networking/sys/client_side.cpp
+++ b/src/edyn/networking/sys/client_side.cpp
@@ -74,8 +74,8 @@ void on_destroy_networked_entity(entt::registry &registry, entt::entity entity)
     auto &ctx = registry.ctx().get<client_network_context>();
 
     if (!ctx.importing_entities) {
-        if (ctx.entity_map.contains(entity)) {
-            ctx.entity_map.erase(entity);
+        if (ctx.entity_map.contains_local(entity)) {
+            ctx.entity_map.erase_local(entity);
         }
 
         ctx.client_destroyed_entities.push_back(entity);
diff --git a/src/edyn/networking/util/process_update_entity_map_packet.cpp b/src/edyn/networking/util/process_update_entity_map_packet.cpp
index 051aadf..e61d2d1 100644
--- a/src/edyn/networking/util/process_update_entity_map_packet.cpp
+++ b/src/edyn/networking/util/process_update_entity_map_packet.cpp
@@ -9,6 +9,17 @@ void process_update_entity_map_packet(const entt::registry &registry, const pack
         auto remote_entity = pair.second;
 
         if (registry.valid(local_entity)) {
+            // A previous mapping can still be present, e.g. if the entity left
+            // and re-entered the AABB of interest while this packet was on its
+            // way. The newest mapping prevails.
+            if (emap.contains(remote_entity)) {
+                emap.erase(remote_entity);
+            }
+
+            if (emap.contains_local(local_entity)) {
+                emap.erase_local(local_entity);
+            }
+
             emap.insert(remote_entity, local_entity);
         }
     }
-- 
2.43.0


From 4222558c1938d56fb734093004f48304ba2eb877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:08 +0000
Subject: [PATCH 095/101] fix: entities destroyed on the server are no longer
 owned by the client

---
 src/edyn/networking/sys/server_side.cpp | 38 +++++++++++++++++++------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/edyn/networking/sys/server_side.cpp b/src/edyn/networking/sys/server_side.cpp
index ef41f65..678475d 100644
--- a/src/edyn/networking/sys/server_side.cpp
+++ b/src/edyn/networking/sys/server_side.cpp
@@ -195,16 +195,20 @@ static void process_packet(entt::registry &registry, entt::entity client_entity,
             if (registry.valid(local_entity)) {
                 auto *owner = registry.try_get<entity_owner>(local_entity);
 
-                if (owner && owner->client_entity == client_entity) {
-                    registry.destroy(local_entity);
-                    client.entity_map.erase(remote_entity);
-                    client.owned_entities.erase(local_entity);
-
-                    // Remove from AABB of interest of owner to prevent notifying
-                    // the requester itself of destruction of these entities.
-                    aabboi.entities.remove(local_entity);
+                if (!owner || owner->client_entity != client_entity) {
+                    continue;
                 }
+
+                registry.destroy(local_entity);
             }
+
+            // The entity could be already gone if it's a constraint and one of
+            // the bodies it connects was destroyed before it.
+            client.entity_map.erase(remote_entity);
+
+            // Remove from AABB of interest of owner to prevent notifying
+            // the requester itself of destruction of these entities.
+            aabboi.entities.remove(local_entity);
         }
     }
 }
@@ -293,8 +297,21 @@ static void process_packet(entt::registry &, entt::entity, const packet::entity_
 static void process_packet(entt::registry &, entt::entity, const packet::entity_exited &) {}
 static void process_packet(entt::registry &, entt::entity, const packet::asset_sync_response &) {}
 
+static void on_destroy_entity_owner(entt::registry &registry, entt::entity entity) {
+    // Entities can be destroyed by the server itself or along with the entities
+    // they depend on.
+    auto &owner = registry.get<entity_owner>(entity);
+
+    if (registry.valid(owner.client_entity)) {
+        if (auto *client = registry.try_get<remote_client>(owner.client_entity)) {
+            client->owned_entities.remove(entity);
+        }
+    }
+}
+
 void init_network_server(entt::registry &registry) {
     registry.ctx().emplace<server_network_context>(registry);
+    registry.on_destroy<entity_owner>().connect<&on_destroy_entity_owner>();
 
     auto &settings = registry.ctx().get<edyn::settings>();
     settings.network_settings = server_network_settings{};
@@ -307,6 +324,7 @@ void init_network_server(entt::registry &registry) {
 
 void deinit_network_server(entt::registry &registry) {
     registry.ctx().erase<server_network_context>();
+    registry.on_destroy<entity_owner>().disconnect<&on_destroy_entity_owner>();
 
     auto &settings = registry.ctx().get<edyn::settings>();
     settings.network_settings = {};
@@ -751,8 +769,10 @@ entt::entity server_make_client(entt::registry &registry, bool allow_full_owners
 
 void server_destroy_client(entt::registry &registry, entt::entity client_entity) {
     auto &client = registry.get<remote_client>(client_entity);
+    // Entities are removed from the set of owned entities when destroyed.
+    const auto owned_entities = std::vector<entt::entity>(client.owned_entities.begin(), client.owned_entities.end());
 
-    for (auto entity : client.owned_entities) {
+    for (auto entity : owned_entities) {
         if (registry.valid(entity)) {
             registry.destroy(entity);
         }
-- 
2.43.0


From 9ac77a88b7d1dac917b796d5c8c00e46796c0c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:08 +0000
Subject: [PATCH 096/101] fix: each action of a client is performed exactly
 once

---
 .../edyn/networking/comp/action_history.hpp   | 27 ++++++++++++-------
 .../edyn/networking/comp/remote_client.hpp    |  2 --
 .../util/server_snapshot_importer.hpp         |  6 ++---
 src/edyn/networking/sys/server_side.cpp       | 12 ++-------
 4 files changed, 23 insertions(+), 24 deletions(-)

diff --git a/include/edyn/networking/comp/action_history.hpp b/include/edyn/networking/comp/action_history.hpp
index f86196f..044c96c 100644
--- a/include/edyn/networking/comp/action_history.hpp
+++ b/include/edyn/networking/comp/action_history.hpp
@@ -41,18 +41,27 @@ struct action_history {
         entries.erase(entries.begin(), it);
     }
 
-    void merge(const action_history &other) {
+    /**
+     * @brief Append the entries of another history which haven't been merged yet.
+     * @param other A history received from the entity owner.
+     * @param time_delta Time difference to be added to the timestamps of the
+     * entries that are inserted. It's an estimate which can change between
+     * calls, therefore the original timestamps are used to tell which entries
+     * are new.
+     */
+    void merge(const action_history &other, double time_delta = 0) {
         EDYN_ASSERT(!other.empty());
 
-        // Only append newer entries.
-        auto other_begin = std::find_if(other.entries.begin(), other.entries.end(),
-                                        [&](auto &&entry) { return entry.timestamp > last_timestamp; });
-        entries.insert(entries.end(), other_begin, other.entries.end());
-
-        if (!entries.empty()) {
-            // Assign new highest timestamp yet inserted.
-            last_timestamp = entries.back().timestamp;
+        for (auto &entry : other.entries) {
+            // Only append newer entries.
+            if (entry.timestamp > last_timestamp) {
+                entries.push_back(entry);
+                entries.back().timestamp += time_delta;
+            }
         }
+
+        // Assign highest timestamp yet inserted.
+        last_timestamp = std::max(last_timestamp, other.entries.back().timestamp);
     }
 
     void sort() {
diff --git a/include/edyn/networking/comp/remote_client.hpp b/include/edyn/networking/comp/remote_client.hpp
index f9edc06..052c6ae 100644
--- a/include/edyn/networking/comp/remote_client.hpp
+++ b/include/edyn/networking/comp/remote_client.hpp
@@ -46,8 +46,6 @@ struct remote_client {
     bool allow_full_ownership {true};
 
     clock_sync_data clock_sync;
-
-    double last_executed_history_entry_timestamp {0};
 };
 
 }
diff --git a/include/edyn/networking/util/server_snapshot_importer.hpp b/include/edyn/networking/util/server_snapshot_importer.hpp
index 3b66d7b..b4938ed 100644
--- a/include/edyn/networking/util/server_snapshot_importer.hpp
+++ b/include/edyn/networking/util/server_snapshot_importer.hpp
@@ -338,12 +338,12 @@ public:
 
             history.sort();
 
-            for (auto &entry : history.entries) {
-                entry.timestamp += time_delta;
+            if (!registry.all_of<action_history>(entity)) {
+                registry.emplace<action_history>(entity);
             }
 
             registry.patch<action_history>(entity, [&](action_history &current) {
-                current.merge(history);
+                current.merge(history, time_delta);
             });
         }
 
diff --git a/src/edyn/networking/sys/server_side.cpp b/src/edyn/networking/sys/server_side.cpp
index 678475d..5ee4893 100644
--- a/src/edyn/networking/sys/server_side.cpp
+++ b/src/edyn/networking/sys/server_side.cpp
@@ -599,26 +599,18 @@ static void dispatch_actions(entt::registry &registry, double time) {
 
         auto [client] = client_view.get(owner.client_entity);
         auto it = history.entries.begin();
-        auto last_timestamp = client.last_executed_history_entry_timestamp;
 
         for (; it != history.entries.end(); ++it) {
-            if (it->timestamp <= client.last_executed_history_entry_timestamp) {
-                // Action has already been processed.
-                continue;
-            }
-
             if (it->timestamp > time - client.playout_delay) {
                 // This action and all that follow should be processed later.
                 break;
             }
 
             ctx.snapshot_importer->import_action(registry, entity, it->action_index, it->data);
-            last_timestamp = it->timestamp;
         }
 
-        client.last_executed_history_entry_timestamp = last_timestamp;
-
-        // Delete all actions up to the last one that was executed.
+        // Delete all actions up to the last one that was executed. They will not
+        // be inserted again, because only newer actions are merged.
         history.entries.erase(history.entries.begin(), it);
     }
 }
-- 
2.43.0


From b1d032b29ec26aabb1cc56bc9f725b040bb65cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:08 +0000
Subject: [PATCH 097/101] fix: assets can exit before they are linked, partly
 or by being destroyed

---
 src/edyn/networking/sys/client_side.cpp |  8 +++++
 src/edyn/networking/sys/server_side.cpp | 42 ++++++++++++++++++++-----
 2 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/src/edyn/networking/sys/client_side.cpp b/src/edyn/networking/sys/client_side.cpp
index 6fedcb4..fe9e752 100644
--- a/src/edyn/networking/sys/client_side.cpp
+++ b/src/edyn/networking/sys/client_side.cpp
@@ -577,6 +577,9 @@ static void destroy_remote_entities(entt::registry &registry, const std::vector<
                 auto [asset] = asset_view.get(local_entity);
 
                 for (auto [asset_id, remote_entry_entity] : asset.entity_map) {
+                    // It won't be present if the asset hasn't been linked yet.
+                    if (!ctx.entity_map.contains(remote_entry_entity)) continue;
+
                     auto local_entry_entity = ctx.entity_map.at(remote_entry_entity);
                     ctx.entity_map.erase(remote_entry_entity);
 
@@ -862,6 +865,11 @@ static void process_packet(entt::registry &registry, packet::entity_response &re
 static void process_packet(entt::registry &registry, packet::asset_sync_response &res) {
     auto &ctx = registry.ctx().get<client_network_context>();
 
+    // The asset could have exited the AABB of interest in the meantime.
+    if (!ctx.entity_map.contains(res.entity)) {
+        return;
+    }
+
     // Instantiate entities in asset.
     auto local_entity = ctx.entity_map.at(res.entity);
     ctx.instantiate_asset_signal.publish(local_entity);
diff --git a/src/edyn/networking/sys/server_side.cpp b/src/edyn/networking/sys/server_side.cpp
index 5ee4893..ce12c1e 100644
--- a/src/edyn/networking/sys/server_side.cpp
+++ b/src/edyn/networking/sys/server_side.cpp
@@ -397,17 +397,13 @@ static void process_aabb_of_interest_entities_exited(entt::registry &registry,
 
             if (!assets.contains(entry.asset_entity)) {
                 assets.push(entry.asset_entity);
-
-                if (client.entity_map.contains_local(entry.asset_entity)) {
-                    client.entity_map.erase_local(entry.asset_entity);
-                }
             }
         } else {
             entities.push_back(entity);
-        }
 
-        if (client.entity_map.contains_local(entity)) {
-            client.entity_map.erase_local(entity);
+            if (client.entity_map.contains_local(entity)) {
+                client.entity_map.erase_local(entity);
+            }
         }
     }
 
@@ -419,6 +415,38 @@ static void process_aabb_of_interest_entities_exited(entt::registry &registry,
         }
     }
 
+    // Include assets that have been destroyed.
+    for (auto it = aabboi.asset_entity_count.begin(); it != aabboi.asset_entity_count.end();) {
+        if (!registry.valid(it->first)) {
+            if (!assets.contains(it->first)) {
+                assets.push(it->first);
+            }
+
+            it = aabboi.asset_entity_count.erase(it);
+        } else {
+            ++it;
+        }
+    }
+
+    // The client will destroy the asset and all of its entities.
+    const auto asset_view = registry.view<asset_ref>();
+
+    for (auto asset_entity : assets) {
+        if (client.entity_map.contains_local(asset_entity)) {
+            client.entity_map.erase_local(asset_entity);
+        }
+
+        if (asset_view.contains(asset_entity)) {
+            auto [asset] = asset_view.get(asset_entity);
+
+            for (auto [asset_id, entity] : asset.entity_map) {
+                if (client.entity_map.contains_local(entity)) {
+                    client.entity_map.erase_local(entity);
+                }
+            }
+        }
+    }
+
     if (!assets.empty()) {
         auto packet = packet::entity_exited{};
         packet.entities.insert(packet.entities.end(), assets.begin(), assets.end());
-- 
2.43.0


From 98dec0b05a00269ba9d9f9be025879832513fb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:46 +0000
Subject: [PATCH 098/101] fix: the extrapolation thread is awaited when
 stopping and misses no messages

---
 .../extrapolation/extrapolation_worker.hpp    |  5 +++--
 .../extrapolation/extrapolation_worker.cpp    | 20 ++++++++++++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/edyn/networking/extrapolation/extrapolation_worker.hpp b/include/edyn/networking/extrapolation/extrapolation_worker.hpp
index a20d2be..8dc3e09 100644
--- a/include/edyn/networking/extrapolation/extrapolation_worker.hpp
+++ b/include/edyn/networking/extrapolation/extrapolation_worker.hpp
@@ -82,14 +82,15 @@ private:
         msg::set_extrapolator_context_settings> m_message_queue;
 
     std::atomic<bool> m_running {false};
+    std::atomic<bool> m_finished {true};
     std::atomic<bool> m_has_messages {false};
 
     std::vector<extrapolation_request> m_requests;
     unsigned m_max_requests {3};
     entt::sparse_set m_owned_entities;
 
-    double m_init_time;
-    double m_current_time;
+    double m_init_time {};
+    double m_current_time {};
     unsigned m_step_count {0};
     bool m_terminated_early {false};
 
diff --git a/src/edyn/networking/extrapolation/extrapolation_worker.cpp b/src/edyn/networking/extrapolation/extrapolation_worker.cpp
index c6354da..fbacd5c 100644
--- a/src/edyn/networking/extrapolation/extrapolation_worker.cpp
+++ b/src/edyn/networking/extrapolation/extrapolation_worker.cpp
@@ -108,6 +108,7 @@ void extrapolation_worker::deinit() {
 
 void extrapolation_worker::start() {
     m_running.store(true, std::memory_order_release);
+    m_finished.store(false, std::memory_order_release);
 
     auto &settings = m_registry.ctx().get<edyn::settings>();
     (*settings.start_thread_func)([](void *args) {
@@ -116,8 +117,14 @@ void extrapolation_worker::start() {
 }
 
 void extrapolation_worker::stop() {
+    std::unique_lock<std::mutex> lock(m_mutex);
     m_running.store(false, std::memory_order_release);
-    m_cv.notify_one();
+    m_cv.notify_all();
+
+    // The thread accesses members until it's finished.
+    m_cv.wait(lock, [&]() {
+        return m_finished.load(std::memory_order_relaxed);
+    });
 }
 
 void extrapolation_worker::set_settings(const edyn::settings &settings) {
@@ -275,8 +282,11 @@ void extrapolation_worker::on_set_extrapolator_context_settings(message<msg::set
 }
 
 void extrapolation_worker::on_push_message() {
+    // Lock to prevent the message from arriving in between evaluation of the
+    // condition and start of the wait, which would leave it there.
+    std::lock_guard<std::mutex> lock(m_mutex);
     m_has_messages.store(true, std::memory_order_release);
-    m_cv.notify_one();
+    m_cv.notify_all();
 }
 
 void extrapolation_worker::apply_history() {
@@ -562,10 +572,14 @@ void extrapolation_worker::run() {
                 m_requests.erase(m_requests.begin());
                 extrapolate(req);
             }
-        } while (!m_requests.empty() && m_has_messages.exchange(false, std::memory_order_relaxed));
+        } while (!m_requests.empty() && m_running.load(std::memory_order_relaxed));
     }
 
     deinit();
+
+    std::lock_guard<std::mutex> lock(m_mutex);
+    m_finished.store(true, std::memory_order_relaxed);
+    m_cv.notify_all();
 }
 
 }
-- 
2.43.0


From 6b6384a4328e7f19aa15edd8582830ffaaae96b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:54 +0000
Subject: [PATCH 099/101] fix: entities that a client creates can be destroyed
 before they are sent

---
 src/edyn/networking/sys/client_side.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/edyn/networking/sys/client_side.cpp b/src/edyn/networking/sys/client_side.cpp
index fe9e752..2ad4049 100644
--- a/src/edyn/networking/sys/client_side.cpp
+++ b/src/edyn/networking/sys/client_side.cpp
@@ -47,6 +47,7 @@
 #include "edyn/util/profile_util.hpp"
 #include "edyn/time/simulation_time.hpp"
 #include <entt/entity/registry.hpp>
+#include <algorithm>
 #include <set>
 
 namespace edyn {
@@ -73,6 +74,15 @@ void on_construct_networked_entity(entt::registry &registry, entt::entity entity
 void on_destroy_networked_entity(entt::registry &registry, entt::entity entity) {
     auto &ctx = registry.ctx().get<client_network_context>();
 
+    // The server does not know about entities that haven't been sent yet.
+    auto &created_entities = ctx.client_created_entities;
+    auto created_it = std::find(created_entities.begin(), created_entities.end(), entity);
+
+    if (created_it != created_entities.end()) {
+        created_entities.erase(created_it);
+        return;
+    }
+
     if (!ctx.importing_entities) {
         if (ctx.entity_map.contains_local(entity)) {
             ctx.entity_map.erase_local(entity);
-- 
2.43.0


From febc615dbf37745301548637f62c77b005a9adab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:54 +0000
Subject: [PATCH 100/101] fix: an area of interest stays when the entity it
 follows is destroyed

---
 src/edyn/networking/sys/update_aabbs_of_interest.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/edyn/networking/sys/update_aabbs_of_interest.cpp b/src/edyn/networking/sys/update_aabbs_of_interest.cpp
index 2179e67..d43ebb9 100644
--- a/src/edyn/networking/sys/update_aabbs_of_interest.cpp
+++ b/src/edyn/networking/sys/update_aabbs_of_interest.cpp
@@ -24,6 +24,11 @@ void follow_aabb_of_interest(entt::registry &registry) {
     auto position_view = registry.view<position>();
 
     registry.view<aabb_of_interest, aabb_oi_follow>().each([&](aabb_of_interest &aabboi, aabb_oi_follow &follow) {
+        // Stay in place if the entity is gone.
+        if (!position_view.contains(follow.entity)) {
+            return;
+        }
+
         auto [pos] = position_view.get(follow.entity);
         auto half_size = (aabboi.aabb.max - aabboi.aabb.min) / 2;
         aabboi.aabb.min = pos - half_size;
-- 
2.43.0


From 75b7784354861ddb350513c029788baba563414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:58 +0000
Subject: [PATCH 101/101] fix: constraints of clients whose bodies are gone are
 dropped by both sides

---
 src/edyn/networking/sys/client_side.cpp |  9 +++++----
 src/edyn/networking/sys/server_side.cpp | 22 ++++++++++++++++++++++
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/edyn/networking/sys/client_side.cpp b/src/edyn/networking/sys/client_side.cpp
index 2ad4049..d166018 100644
--- a/src/edyn/networking/sys/client_side.cpp
+++ b/src/edyn/networking/sys/client_side.cpp
@@ -83,11 +83,12 @@ void on_destroy_networked_entity(entt::registry &registry, entt::entity entity)
         return;
     }
 
-    if (!ctx.importing_entities) {
-        if (ctx.entity_map.contains_local(entity)) {
-            ctx.entity_map.erase_local(entity);
-        }
+    // Constraints are destroyed along with the bodies that exit.
+    if (ctx.entity_map.contains_local(entity)) {
+        ctx.entity_map.erase_local(entity);
+    }
 
+    if (!ctx.importing_entities) {
         ctx.client_destroyed_entities.push_back(entity);
     }
 }
diff --git a/src/edyn/networking/sys/server_side.cpp b/src/edyn/networking/sys/server_side.cpp
index ce12c1e..be006fa 100644
--- a/src/edyn/networking/sys/server_side.cpp
+++ b/src/edyn/networking/sys/server_side.cpp
@@ -77,6 +77,18 @@ void maybe_create_graph_edge(entt::registry &registry, entt::entity entity, [[ma
     maybe_create_graph_edge<Ts...>(registry, entity);
 }
 
+template<typename T>
+bool is_missing_body(const entt::registry &registry, entt::entity entity) {
+    auto *comp = registry.try_get<T>(entity);
+    return comp && !(registry.valid(comp->body[0]) && registry.all_of<graph_node>(comp->body[0]) &&
+                     registry.valid(comp->body[1]) && registry.all_of<graph_node>(comp->body[1]));
+}
+
+template<typename... Ts>
+bool is_constraint_missing_body(const entt::registry &registry, entt::entity entity, [[maybe_unused]] std::tuple<Ts...>) {
+    return is_missing_body<null_constraint>(registry, entity) || (is_missing_body<Ts>(registry, entity) || ...);
+}
+
 static void process_packet(entt::registry &registry, entt::entity client_entity,
                            const packet::create_entity &packet) {
     auto &ctx = registry.ctx().get<server_network_context>();
@@ -179,6 +191,16 @@ static void process_packet(entt::registry &registry, entt::entity client_entity,
     // for rigid bodies above.
     for (auto remote_entity : packet.entities) {
         auto local_entity = client.entity_map.at(remote_entity);
+
+        // One of the bodies could've been destroyed or have left the AABB of
+        // interest of the client in the meantime. The client gets rid of the
+        // constraint together with the body.
+        if (is_constraint_missing_body(registry, local_entity, constraints_tuple)) {
+            client.entity_map.erase(remote_entity);
+            registry.destroy(local_entity);
+            continue;
+        }
+
         maybe_create_graph_edge(registry, local_entity, constraints_tuple);
         maybe_create_graph_edge<null_constraint>(registry, local_entity);
     }
-- 
2.43.0

