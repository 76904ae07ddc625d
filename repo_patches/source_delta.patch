From 7b360bf38731fd7a34198869462ab7d8945eb01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:43 +0000
Subject: [PATCH 01/47] fix: Duration32 scaling and division never produce NaN

Zero() * inf and Zero() / 0.f returned a NaN duration, although the type
documents that NaN never results from arithmetic. Give an infinite duration
instead, as absl::Duration does.
---
 ink/types/duration.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ink/types/duration.cc b/ink/types/duration.cc
index 56154b6..a93c116 100644
--- a/ink/types/duration.cc
+++ b/ink/types/duration.cc
@@ -32,6 +32,11 @@ Duration32 operator*(Duration32 d, float scale) {
     return (d >= Duration32::Zero()) == (scale >= 0) ? Duration32::Infinite()
                                                      : -Duration32::Infinite();
   }
+  // IEEE 754 gives NaN for 0 * inf, but a `Duration32` is never NaN. As with
+  // `absl::Duration`, scaling by an infinite factor gives an infinite duration.
+  if (d == Duration32::Zero() && std::isinf(scale)) {
+    return scale >= 0 ? Duration32::Infinite() : -Duration32::Infinite();
+  }
   return Duration32(d.value_seconds_ * scale);
 }
 
@@ -45,6 +50,12 @@ Duration32 operator/(Duration32 d, float divisor) {
                ? Duration32::Infinite()
                : -Duration32::Infinite();
   }
+  // IEEE 754 gives NaN for 0 / 0, but a `Duration32` is never NaN. As with
+  // `absl::Duration`, dividing by zero gives an infinite duration.
+  if (d == Duration32::Zero() && divisor == 0) {
+    return std::signbit(divisor) ? -Duration32::Infinite()
+                                 : Duration32::Infinite();
+  }
   return Duration32(d.value_seconds_ / divisor);
 }
 
-- 
2.43.0


From bc33b9e23ff3a439306e5b9ccaad1451b1569b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 02/47] fix: Vec::AsUnitVec handles subnormal vectors

---
 ink/geometry/vec.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/vec.cc b/ink/geometry/vec.cc
index 97479d0..557edf0 100644
--- a/ink/geometry/vec.cc
+++ b/ink/geometry/vec.cc
@@ -56,8 +56,11 @@ Vec Vec::AsUnitVec() const {
   // Finally, we have the finite, nonzero case.  In theory, we can just divide
   // the vector by its magnitude, but the magnitude can overflow to infinity if
   // e.g. x and y are both very large finite floats.  We can avoid this by
-  // pre-scaling the vector before normalizing.
-  Vec scaled = 0.5f * *this;
+  // pre-scaling the vector before normalizing.  Similarly, we scale small
+  // vectors up instead of down, because halving a subnormal component would
+  // lose precision (and could round the whole vector to zero).
+  Vec scaled =
+      (std::max(std::abs(x), std::abs(y)) < 1.f ? 0x1p64f : 0.5f) * *this;
   return scaled / scaled.Magnitude();
 }
 
-- 
2.43.0


From 27848baa90978eb9e46b0e74a3ddb7f341d32ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 03/47] fix: Rect::SetWidth and SetHeight do not overflow for
 large rects

---
 ink/geometry/rect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/rect.h b/ink/geometry/rect.h
index 33a1d8f..c7ac6fa 100644
--- a/ink/geometry/rect.h
+++ b/ink/geometry/rect.h
@@ -249,7 +249,7 @@ inline float Rect::Width() const { return x_max_ - x_min_; }
 
 inline void Rect::SetWidth(float width) {
   ABSL_CHECK(width >= 0) << "Cannot set a width less than 0";
-  float x_center = (x_min_ + x_max_) / 2;
+  float x_center = Center().x;
   x_min_ = x_center - width / 2;
   x_max_ = x_center + width / 2;
 }
@@ -258,7 +258,7 @@ inline float Rect::Height() const { return y_max_ - y_min_; }
 
 inline void Rect::SetHeight(float height) {
   ABSL_CHECK(height >= 0) << "Cannot set a height less than 0";
-  float y_center = (y_min_ + y_max_) / 2;
+  float y_center = Center().y;
   y_min_ = y_center - height / 2;
   y_max_ = y_center + height / 2;
 }
-- 
2.43.0


From 81cca034f5272544c991e68603fd92321be6877e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 04/47] fix: define the default constructor of Quad

---
 ink/geometry/quad.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ink/geometry/quad.h b/ink/geometry/quad.h
index f97cc7d..26c9b40 100644
--- a/ink/geometry/quad.h
+++ b/ink/geometry/quad.h
@@ -83,7 +83,7 @@ class Quad {
  public:
   // Constructs a Quad centered on the origin, with zero width, height,
   // rotation, and shear factor.
-  Quad();
+  Quad() = default;
 
   // Constructs a Quad with the specified parameters, setting unspecified
   // parameters to zero. If the given width is less than zero, the Quad will be
-- 
2.43.0


From 8383ad10507425d1370424fb9de3562ef1406b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 05/47] fix: orientation tests do not underflow for tiny
 triangles and segments

---
 ink/geometry/internal/intersects_internal.cc |  7 ++++++-
 ink/geometry/triangle.cc                     | 15 +++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/ink/geometry/internal/intersects_internal.cc b/ink/geometry/internal/intersects_internal.cc
index c463706..6d26118 100644
--- a/ink/geometry/internal/intersects_internal.cc
+++ b/ink/geometry/internal/intersects_internal.cc
@@ -88,7 +88,12 @@ bool IntersectsInternal(const Segment& a, const Segment& b) {
   float v2 = Vec::Determinant(vec_a, b.end - a.start);
   float v3 = Vec::Determinant(vec_b, a.start - b.start);
   float v4 = Vec::Determinant(vec_b, a.end - b.start);
-  return v1 * v2 <= 0 && v3 * v4 <= 0;
+  // Note that we compare the signs directly, because `v1 * v2` and `v3 * v4` can
+  // underflow to zero.
+  auto opposite_or_zero = [](float a, float b) {
+    return (a <= 0 && b >= 0) || (a >= 0 && b <= 0);
+  };
+  return opposite_or_zero(v1, v2) && opposite_or_zero(v3, v4);
 }
 bool IntersectsInternal(const Segment& a, const Triangle& b) {
   // NOMUTANTS -- Reroute to a simpler function when the Segment is Point-like.
diff --git a/ink/geometry/triangle.cc b/ink/geometry/triangle.cc
index 34e6f03..15a342a 100644
--- a/ink/geometry/triangle.cc
+++ b/ink/geometry/triangle.cc
@@ -26,10 +26,21 @@
 
 namespace ink {
 
+namespace {
+
+// Returns true if `a` and `b` do not have opposite signs. This compares the
+// values to zero instead of looking at the sign of `a * b`, because that product
+// can underflow to zero.
+bool OnSameSide(float a, float b) {
+  return (a >= 0 && b >= 0) || (a <= 0 && b <= 0);
+}
+
+}  // namespace
+
 bool Triangle::Contains(Point point) const {
   float d0 = Vec::Determinant(point - p0, p1 - p0);
   float d1 = Vec::Determinant(point - p1, p2 - p1);
-  if (d0 * d1 < 0) return false;
+  if (!OnSameSide(d0, d1)) return false;
 
   if (d0 == 0 && d1 == 0) {
     // The test point is on the same line as two segments of the triangle, which
@@ -79,7 +90,7 @@ bool Triangle::Contains(Point point) const {
   }
 
   float d2 = Vec::Determinant(point - p2, p0 - p2);
-  return (d1 * d2 >= 0) && (d0 * d2 >= 0);
+  return OnSameSide(d1, d2) && OnSameSide(d0, d2);
 }
 
 Segment Triangle::GetEdge(int index) const {
-- 
2.43.0


From 6c59bc2fed3ce32f8b3cb6382e4a210e50c4125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 06/47] fix: AffineTransform keeps the full extent of quads it
 collapses

---
 ink/geometry/affine_transform.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ink/geometry/affine_transform.cc b/ink/geometry/affine_transform.cc
index 2b3e39f..bf0ac1e 100644
--- a/ink/geometry/affine_transform.cc
+++ b/ink/geometry/affine_transform.cc
@@ -85,12 +85,23 @@ Quad AffineTransform::Apply(const Quad& q) const {
   float u_dot_v = Vec::DotProduct(u, v);
   float u_cross_v = Vec::Determinant(u, v);
 
+  if (u_cross_v == 0) {
+    // The transformed axes are parallel (or zero), which means that the quad is
+    // collapsed to a segment (or a point). Both axes contribute to the length of
+    // that segment, unless the original quad has no extent along them.
+    Vec u_extent = q.Width() == 0 ? Vec{0, 0} : u;
+    Vec v_extent = q.Height() == 0 ? Vec{0, 0} : v;
+    Vec extent = u_dot_v < 0 ? u_extent - v_extent : u_extent + v_extent;
+    return Quad::FromCenterDimensionsRotationAndShear(
+        new_center, 2 * extent.Magnitude(), 0,
+        extent == Vec{0, 0} ? u.Direction() : extent.Direction(), 0);
+  }
+
   float new_width = q.Width() == 0 ? 0 : 2 * u_magnitude;
-  float new_height =
-      q.Height() == 0 || u_cross_v == 0 ? 0 : 2 * u_cross_v / u_magnitude;
+  float new_height = q.Height() == 0 ? 0 : 2 * u_cross_v / u_magnitude;
 
   Angle new_rotation = u.Direction();
-  float new_shear = u_cross_v == 0 ? 0 : u_dot_v / u_cross_v;
+  float new_shear = u_dot_v / u_cross_v;
 
   return Quad::FromCenterDimensionsRotationAndShear(
       new_center, new_width, new_height, new_rotation, new_shear);
-- 
2.43.0


From 953c2f3ae02975c7b551bba0f1b4712b5dd19c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:28 +0000
Subject: [PATCH 07/47] fix: ConvexHull keeps extreme points when pruning and
 on vertical rays

---
 ink/geometry/internal/convex_hull_helper.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/internal/convex_hull_helper.h b/ink/geometry/internal/convex_hull_helper.h
index b6e436f..7fe6ad4 100644
--- a/ink/geometry/internal/convex_hull_helper.h
+++ b/ink/geometry/internal/convex_hull_helper.h
@@ -77,8 +77,12 @@ PruneUsingAkiToussaint(
                           Point{GetX(min_y_point), GetY(min_y_point)},
                           Point{GetX(max_x_point), GetY(max_x_point)}};
 
+  // The extrema themselves may be in the convex hull (and the triangles contain
+  // them), so they must always be kept.
   std::vector<VertexType> pruned_points;
   pruned_points.reserve(points.size());
+  pruned_points.insert(pruned_points.end(), {min_x_point, max_x_point,
+                                             min_y_point, max_y_point});
   for (const auto& p : points) {
     Point test_point{GetX(p), GetY(p)};
     if (!upper_triangle.Contains(test_point) &&
@@ -127,8 +131,11 @@ std::vector<typename VertexTessellationHelper::VertexType> ConvexHull(
               Vec rhs_vec{GetX(rhs) - GetX(start_point),
                           GetY(rhs) - GetY(start_point)};
               float det = Vec::Determinant(lhs_vec, rhs_vec);
-              return det > 0 ||
-                     (det == 0 && std::abs(lhs_vec.x) < std::abs(rhs_vec.x));
+              if (det != 0) return det > 0;
+              // Note that the x-coordinates also tie for vertical rays.
+              return lhs_vec.x != rhs_vec.x
+                         ? std::abs(lhs_vec.x) < std::abs(rhs_vec.x)
+                         : std::abs(lhs_vec.y) < std::abs(rhs_vec.y);
             });
 
   // Add the sorted points to the hull, removing any that form concavities.
-- 
2.43.0


From 4db030b1ffe8caee934bd0848b17e0801dec296f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:28 +0000
Subject: [PATCH 08/47] fix: visiting an empty StaticRTree visits nothing

---
 ink/geometry/internal/static_rtree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ink/geometry/internal/static_rtree.h b/ink/geometry/internal/static_rtree.h
index da0a591..9213844 100644
--- a/ink/geometry/internal/static_rtree.h
+++ b/ink/geometry/internal/static_rtree.h
@@ -382,6 +382,7 @@ void StaticRTree<T, kBranchingFactor>::InitializeTree() {
 template <typename T, uint32_t kBranchingFactor>
 void StaticRTree<T, kBranchingFactor>::VisitIntersectedElements(
     const Rect& bounds, absl::FunctionRef<bool(const T&)> visitor) const {
+  if (branch_nodes_.empty()) return;
   if (!IntersectsInternal(branch_nodes_.front().bounds, bounds)) return;
   VisitIntersectedElementsInSubTree(0, bounds, visitor);
 }
-- 
2.43.0


From ddb388e3fcf338b1d70a80bf5321057e4567fece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 09/47] fix: ProcessPolylineForMeshCreation copes with repeated
 points and short polylines

---
 ink/geometry/internal/polyline_processing.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/internal/polyline_processing.cc b/ink/geometry/internal/polyline_processing.cc
index 0fb87f4..e970e8f 100644
--- a/ink/geometry/internal/polyline_processing.cc
+++ b/ink/geometry/internal/polyline_processing.cc
@@ -396,7 +396,16 @@ std::vector<Point> ProcessPolylineForMeshCreation(
     absl::Span<const Point> points, float min_walk_distance,
     float max_connection_distance, float min_connection_ratio,
     float min_trimming_ratio) {
-  PolylineData polyline = CreateNewPolylineData(points);
+  // Repeated points make zero-length segments, which have no direction to
+  // project onto, and around which the neighboring segments seem to intersect.
+  std::vector<Point> unique_points(points.begin(), points.end());
+  unique_points.erase(std::unique(unique_points.begin(), unique_points.end()),
+                      unique_points.end());
+  if (unique_points.size() < 2) {
+    return std::vector<Point>(points.begin(), points.end());
+  }
+
+  PolylineData polyline = CreateNewPolylineData(unique_points);
 
   polyline.min_walk_distance = min_walk_distance;
   polyline.max_connection_distance = max_connection_distance;
@@ -407,7 +416,9 @@ std::vector<Point> ProcessPolylineForMeshCreation(
                                                            segment_bounds);
   FindFirstAndLastIntersections(rtree, polyline);
   FindBestEndpointConnections(rtree, polyline);
-  return CreateNewPolylineFromPolylineData(polyline, points);
+  return CreateNewPolylineFromPolylineData(
+      polyline, polyline.has_intersection ? absl::MakeConstSpan(unique_points)
+                                          : points);
 }
 
 }  // namespace ink::geometry_internal
-- 
2.43.0


From 274a9478135fe282aebc171a4723e13e1480f087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:30 +0000
Subject: [PATCH 10/47] fix: coding params stay usable for extremely small and
 large ranges

---
 ink/geometry/internal/mesh_packing.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ink/geometry/internal/mesh_packing.cc b/ink/geometry/internal/mesh_packing.cc
index 548cca6..d5828f6 100644
--- a/ink/geometry/internal/mesh_packing.cc
+++ b/ink/geometry/internal/mesh_packing.cc
@@ -19,6 +19,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
+#include <limits>
 #include <optional>
 #include <utility>
 #include <vector>
@@ -876,7 +877,17 @@ absl::StatusOr<MeshAttributeCodingParams> ComputeCodingParams(
     // If the min and max are the same, we would get a scale of zero, which
     // wouldn't make sense, since multiplying by zero is not invertible --
     // so in that case we set the scale to 1 instead.
-    coding_params.components[i].scale = range > 0 ? range / max_values[i] : 1;
+    float scale = range > 0 ? range / max_values[i] : 1;
+    // If the range is extremely small, the division may underflow, giving a
+    // scale with which the maximum is not representable (or even zero); if it
+    // is extremely large, unpacking the maximum may overflow. In either case,
+    // the adjacent float is accurate enough.
+    if (range > 0 && !(std::round(range / scale) <= max_values[i])) {
+      scale = std::nextafter(scale, std::numeric_limits<float>::infinity());
+    } else if (!std::isfinite(max_values[i] * scale)) {
+      scale = std::nextafter(scale, 0.f);
+    }
+    coding_params.components[i].scale = scale;
   }
 
   return coding_params;
-- 
2.43.0


From a2b6e3a2d255a333fae99e76ad34558416ca8e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 11/47] fix: PartitionedMesh without meshes can be queried

A PartitionedMesh made of empty groups is documented to be a no-op for
InitializeSpatialIndex and to have zero coverage, but reached a CHECK.
---
 ink/geometry/partitioned_mesh.cc | 28 ++++++++++++++--------------
 ink/geometry/partitioned_mesh.h  |  2 +-
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/ink/geometry/partitioned_mesh.cc b/ink/geometry/partitioned_mesh.cc
index 4201951..55536a7 100644
--- a/ink/geometry/partitioned_mesh.cc
+++ b/ink/geometry/partitioned_mesh.cc
@@ -328,7 +328,7 @@ void VisitIntersectedTrianglesHelper(
 void PartitionedMesh::VisitIntersectedTriangles(
     Point query, absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -338,7 +338,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Segment& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -348,7 +348,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Triangle& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -358,7 +358,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Rect& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -368,7 +368,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Quad& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -424,7 +424,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const PartitionedMesh& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   // If `query` is empty, it can't intersect this shape.
   if (query.Meshes().empty()) return;
@@ -475,28 +475,28 @@ float ComputeCoverage(const QueryType& query,
 
 float PartitionedMesh::Coverage(const Triangle& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
 
 float PartitionedMesh::Coverage(const Rect& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
 
 float PartitionedMesh::Coverage(const Quad& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
 
 float PartitionedMesh::Coverage(const PartitionedMesh& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
@@ -533,7 +533,7 @@ float CoverageIsGreaterThanHelper(const QueryType& query,
 bool PartitionedMesh::CoverageIsGreaterThan(
     const Triangle& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
@@ -542,7 +542,7 @@ bool PartitionedMesh::CoverageIsGreaterThan(
 bool PartitionedMesh::CoverageIsGreaterThan(
     const Rect& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
@@ -551,7 +551,7 @@ bool PartitionedMesh::CoverageIsGreaterThan(
 bool PartitionedMesh::CoverageIsGreaterThan(
     const Quad& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
@@ -560,7 +560,7 @@ bool PartitionedMesh::CoverageIsGreaterThan(
 bool PartitionedMesh::CoverageIsGreaterThan(
     const PartitionedMesh& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
diff --git a/ink/geometry/partitioned_mesh.h b/ink/geometry/partitioned_mesh.h
index 34b5876..a8ee5a0 100644
--- a/ink/geometry/partitioned_mesh.h
+++ b/ink/geometry/partitioned_mesh.h
@@ -474,7 +474,7 @@ inline uint32_t PartitionedMesh::OutlineVertexCount(
 }
 
 inline void PartitionedMesh::InitializeSpatialIndex() {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   (void)data_->SpatialIndex();
 }
-- 
2.43.0


From ee3a202b29809ea909de5442b751ff94d12df479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:17 +0000
Subject: [PATCH 12/47] fix: PartitionedMesh indexes meshes of more than 65536
 triangles

TriangleIndexPair held the triangle index in 16 bits, so building the spatial
index wrapped around and left the remaining triangles out.
---
 ink/geometry/partitioned_mesh.cc | 2 +-
 ink/geometry/partitioned_mesh.h  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ink/geometry/partitioned_mesh.cc b/ink/geometry/partitioned_mesh.cc
index 55536a7..6200b9a 100644
--- a/ink/geometry/partitioned_mesh.cc
+++ b/ink/geometry/partitioned_mesh.cc
@@ -584,7 +584,7 @@ const RTree& PartitionedMesh::Data::SpatialIndex() const {
   // in order of mesh index, then triangle index.
   //
   // We want to start at mesh_index = 0, triangle_index = 0, but since they're
-  // `uint16_t`s, we have to make a copy of the current index, then increment
+  // unsigned, we have to make a copy of the current index, then increment
   // the current value, then return the copy (analogous to the post-increment
   // operator).
   auto triangle_index_pair_generator =
diff --git a/ink/geometry/partitioned_mesh.h b/ink/geometry/partitioned_mesh.h
index a8ee5a0..2273536 100644
--- a/ink/geometry/partitioned_mesh.h
+++ b/ink/geometry/partitioned_mesh.h
@@ -77,8 +77,9 @@ class PartitionedMesh {
   struct TriangleIndexPair {
     // The index of the `Mesh` that the triangle belongs to.
     uint16_t mesh_index;
-    // The index of the triangle within the `Mesh`.
-    uint16_t triangle_index;
+    // The index of the triangle within the `Mesh`. Note that, unlike vertices, a
+    // `Mesh` may have more than 2^16 triangles.
+    uint32_t triangle_index;
   };
 
   // One render group for a `PartitionedMesh`, expressed using `MutableMesh`.
-- 
2.43.0


From e0e9fe7350c07b3ac861f7072f61fbed12d5cce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:17 +0000
Subject: [PATCH 13/47] fix: CalculateCollapsedSegment copes with a diagonal
 that collapses

A non-invertible transform may map one diagonal of the bounds to a point while
the shape still covers a segment; the result was then a single point.
---
 ink/geometry/internal/algorithms.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/internal/algorithms.cc b/ink/geometry/internal/algorithms.cc
index f82f9bd..6f2897c 100644
--- a/ink/geometry/internal/algorithms.cc
+++ b/ink/geometry/internal/algorithms.cc
@@ -238,11 +238,18 @@ Segment CalculateCollapsedSegment(
     const AffineTransform& non_invertible_transform) {
   ABSL_DCHECK(!non_invertible_transform.Inverse().has_value());
 
-  // We first transform the diagonal of `query`'s bounds to find the line that
-  // `query` will lie on after transforming it.
+  // We first transform the diagonals of `query`'s bounds to find the line that
+  // `query` will lie on after transforming it. One of them may collapse to a
+  // point even though the shape does not, so we use the longer one.
   std::array<Point, 4> corners = bounds.Corners();
   Segment transformed_diagonal =
       non_invertible_transform.Apply(Segment{corners[0], corners[2]});
+  Segment other_transformed_diagonal =
+      non_invertible_transform.Apply(Segment{corners[1], corners[3]});
+  if (other_transformed_diagonal.Vector().MagnitudeSquared() >
+      transformed_diagonal.Vector().MagnitudeSquared()) {
+    transformed_diagonal = other_transformed_diagonal;
+  }
 
   if (transformed_diagonal.Vector().MagnitudeSquared() == 0) {
     // The transform collapses the shape to a single point.
-- 
2.43.0


From e580099815e13dc666d88db0319fa123a30b82a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:00 +0000
Subject: [PATCH 14/47] fix: shapes collinear up to rounding but far apart do
 not intersect

---
 ink/geometry/internal/intersects_internal.cc | 11 +++++++++++
 ink/geometry/triangle.cc                     | 10 ++++++++++
 2 files changed, 21 insertions(+)

diff --git a/ink/geometry/internal/intersects_internal.cc b/ink/geometry/internal/intersects_internal.cc
index 6d26118..6691aed 100644
--- a/ink/geometry/internal/intersects_internal.cc
+++ b/ink/geometry/internal/intersects_internal.cc
@@ -14,6 +14,7 @@
 
 #include "ink/geometry/internal/intersects_internal.h"
 
+#include <algorithm>
 #include <optional>
 #include <utility>
 
@@ -57,6 +58,16 @@ bool IntersectsInternal(const Segment& a, const Segment& b) {
   // NOMUTANTS -- Reroute to a simpler function when the Segment is Point-like.
   if (b.start == b.end) return IntersectsInternal(b.start, a);
 
+  // Exit early if the Segments lie apart along either axis. For Segments that
+  // are collinear up to rounding, the signs of the cross products below don't
+  // tell whether the Segments lie apart along their common line.
+  if (std::max(a.start.x, a.end.x) < std::min(b.start.x, b.end.x) ||
+      std::max(b.start.x, b.end.x) < std::min(a.start.x, a.end.x) ||
+      std::max(a.start.y, a.end.y) < std::min(b.start.y, b.end.y) ||
+      std::max(b.start.y, b.end.y) < std::min(a.start.y, a.end.y)) {
+    return false;
+  }
+
   Vec vec_a = a.Vector();
   Vec vec_b = b.Vector();
 
diff --git a/ink/geometry/triangle.cc b/ink/geometry/triangle.cc
index 15a342a..5add517 100644
--- a/ink/geometry/triangle.cc
+++ b/ink/geometry/triangle.cc
@@ -38,6 +38,16 @@ bool OnSameSide(float a, float b) {
 }  // namespace
 
 bool Triangle::Contains(Point point) const {
+  // No point outside of the corners' bounding box is contained. For a triangle
+  // that is degenerate up to rounding, the turning directions below can't tell
+  // this for a point that's collinear with it.
+  if (point.x < std::min({p0.x, p1.x, p2.x}) ||
+      point.x > std::max({p0.x, p1.x, p2.x}) ||
+      point.y < std::min({p0.y, p1.y, p2.y}) ||
+      point.y > std::max({p0.y, p1.y, p2.y})) {
+    return false;
+  }
+
   float d0 = Vec::Determinant(point - p0, p1 - p0);
   float d1 = Vec::Determinant(point - p1, p2 - p1);
   if (!OnSameSide(d0, d1)) return false;
-- 
2.43.0


From 542899c0b798663f2eb188e507ba844566bc5085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:00 +0000
Subject: [PATCH 15/47] fix: Intersects misses segments and triangles with
 corners on a quad boundary

---
 ink/geometry/internal/intersects_internal.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ink/geometry/internal/intersects_internal.cc b/ink/geometry/internal/intersects_internal.cc
index 6691aed..7f7d971 100644
--- a/ink/geometry/internal/intersects_internal.cc
+++ b/ink/geometry/internal/intersects_internal.cc
@@ -155,8 +155,9 @@ bool IntersectsInternal(const Segment& a, const Quad& b) {
   // majority of expected inputs.
 
   // Check if the Quad contains a Point from the Segment to verify that the
-  // Segment is not fully contained.
-  if (b.Contains(a.start)) return true;
+  // Segment is not fully contained. Note that rounding may put an endpoint
+  // that's on the Quad's boundary outside of it, so we check the middle too.
+  if (b.Contains(a.start) || b.Contains(a.Midpoint())) return true;
   // Check if any lines of the Quad intersect the Segment.
   for (int i = 0; i < 4; ++i) {
     if (IntersectsInternal(a, b.GetEdge(i))) return true;
@@ -226,8 +227,13 @@ bool IntersectsInternal(const Triangle& a, const Quad& b) {
   // faster for the majority of expected inputs.
 
   // Check if either shape contains a Point from the other to verify that
-  // neither shape fully contains the other.
-  if (b.Contains(a.p0) || a.Contains(b.Center())) return true;
+  // neither shape fully contains the other. Note that rounding may put a corner
+  // that's on the Quad's boundary outside of it, so we check the middle too.
+  Point a_centroid = {(a.p0.x + a.p1.x + a.p2.x) / 3,
+                      (a.p0.y + a.p1.y + a.p2.y) / 3};
+  if (b.Contains(a.p0) || b.Contains(a_centroid) || a.Contains(b.Center())) {
+    return true;
+  }
   // Check if any lines of one shape intersect any lines of the other shape.
   for (int i = 0; i < 3; ++i) {
     for (int j = 0; j < 4; ++j) {
-- 
2.43.0


From 48554056d550dcd974eb4bf5fe121b44ac222242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:29 +0000
Subject: [PATCH 16/47] fix: ScaledToGamut of an infinite channel is not NaN

---
 ink/color/color.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ink/color/color.cc b/ink/color/color.cc
index aec3f4a..2344461 100644
--- a/ink/color/color.cc
+++ b/ink/color/color.cc
@@ -168,7 +168,9 @@ Color Color::ScaledToGamut() const {
                std::max(copy.rgba_[kChannelGreen], copy.rgba_[kChannelBlue]));
   if (max_val > 1.0f) {
     for (int i = 0; i < kNumChannelsColorOnly; ++i) {
-      copy.rgba_[i] = copy.rgba_[i] / max_val;
+      // Infinity divided by infinity is NaN; an infinite channel scales to one.
+      copy.rgba_[i] =
+          copy.rgba_[i] == max_val ? 1.0f : copy.rgba_[i] / max_val;
     }
   }
 
-- 
2.43.0


From 4c01e9b7a60de284b5b6d37bfc04071d9a5f0cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 17/47] fix: CopyOnWrite: order modification after other
 threads' released reads

---
 ink/types/internal/copy_on_write.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ink/types/internal/copy_on_write.h b/ink/types/internal/copy_on_write.h
index e0402d1..da22db3 100644
--- a/ink/types/internal/copy_on_write.h
+++ b/ink/types/internal/copy_on_write.h
@@ -15,6 +15,7 @@
 #ifndef INK_TYPES_INTERNAL_COPY_ON_WRITE_H_
 #define INK_TYPES_INTERNAL_COPY_ON_WRITE_H_
 
+#include <atomic>
 #include <memory>
 #include <type_traits>
 #include <utility>
@@ -81,7 +82,14 @@ class CopyOnWrite {
   // function first creates a new copy of the managed object.
   T& MutableValue() {
     ABSL_CHECK_NE(value_, nullptr);
-    if (IsShared()) Emplace(*value_);
+    if (IsShared()) {
+      Emplace(*value_);
+    } else {
+      // `use_count()` is only a relaxed load. Make sure that everything done
+      // with the value through `CopyOnWrite`s on other threads, which have
+      // since released it, happens before any modification made here.
+      std::atomic_thread_fence(std::memory_order_acquire);
+    }
     return *value_;
   }
 
-- 
2.43.0


From 4ff3aa5b66fdb99cc20fabe3dc4f54c4faa0baeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:04 +0000
Subject: [PATCH 18/47] fix: Quad: do not write a cache from const methods,
 which races between threads

---
 ink/geometry/quad.cc | 19 +++++++------------
 ink/geometry/quad.h  |  6 ------
 2 files changed, 7 insertions(+), 18 deletions(-)

diff --git a/ink/geometry/quad.cc b/ink/geometry/quad.cc
index 8bb5afc..9a80bbd 100644
--- a/ink/geometry/quad.cc
+++ b/ink/geometry/quad.cc
@@ -18,7 +18,6 @@
 #include <array>
 #include <cmath>
 #include <cstdlib>
-#include <optional>
 #include <utility>
 
 #include "absl/log/absl_log.h"
@@ -30,16 +29,13 @@
 namespace ink {
 
 std::pair<Vec, Vec> Quad::SemiAxes() const {
-  if (!semi_axes_.has_value()) {
-    const float cos_rotation = Cos(rotation_);
-    const float sin_rotation = Sin(rotation_);
-    Vec axis_1 = Vec{.5f * width_ * cos_rotation, .5f * width_ * sin_rotation};
-    Vec axis_2 =
-        Vec{.5f * height_ * (shear_factor_ * cos_rotation - sin_rotation),
-            .5f * height_ * (shear_factor_ * sin_rotation + cos_rotation)};
-    semi_axes_ = std::make_pair(axis_1, axis_2);
-  }
-  return semi_axes_.value();
+  const float cos_rotation = Cos(rotation_);
+  const float sin_rotation = Sin(rotation_);
+  Vec axis_1 = Vec{.5f * width_ * cos_rotation, .5f * width_ * sin_rotation};
+  Vec axis_2 =
+      Vec{.5f * height_ * (shear_factor_ * cos_rotation - sin_rotation),
+          .5f * height_ * (shear_factor_ * sin_rotation + cos_rotation)};
+  return std::make_pair(axis_1, axis_2);
 }
 
 std::array<Point, 4> Quad::Corners() const {
@@ -94,7 +90,6 @@ void Quad::Join(Point point) {
   center_ = center_ + u_offset * unit_axes.first + v_offset * unit_axes.second;
   width_ = new_width;
   height_ = new_height;
-  semi_axes_.reset();
 }
 
 bool Quad::Contains(Point point) const {
diff --git a/ink/geometry/quad.h b/ink/geometry/quad.h
index 26c9b40..c1e2111 100644
--- a/ink/geometry/quad.h
+++ b/ink/geometry/quad.h
@@ -16,7 +16,6 @@
 #define INK_GEOMETRY_QUAD_H_
 
 #include <array>
-#include <optional>
 #include <utility>
 
 #include "absl/log/absl_check.h"
@@ -207,7 +206,6 @@ class Quad {
   float height_ = 0;
   Angle rotation_ = Angle::Radians(0);
   float shear_factor_ = 0;
-  mutable std::optional<std::pair<Vec, Vec>> semi_axes_;
 };
 
 bool operator==(const Quad& lhs, const Quad& rhs);
@@ -228,28 +226,24 @@ inline void Quad::SetHeight(float height) {
   if (height == height_) {
     return;
   }
-  semi_axes_.reset();
   height_ = height;
 }
 inline void Quad::SetRotation(Angle rotation) {
   if (rotation == rotation_) {
     return;
   }
-  semi_axes_.reset();
   rotation_ = rotation.Normalized();
 }
 inline void Quad::SetShearFactor(float shear_factor) {
   if (shear_factor == shear_factor_) {
     return;
   }
-  semi_axes_.reset();
   shear_factor_ = shear_factor;
 }
 inline void Quad::SetWidth(float width) {
   if (width == width_) {
     return;
   }
-  semi_axes_.reset();
   width_ = width;
   Normalize();
 }
-- 
2.43.0


From 7dcddc98186a6d9dc2c62d3bd01c35ef5161204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 19/47] =?UTF-8?q?fix:=20StrokeInputBatch:=20reject=20an=20?=
 =?UTF-8?q?orientation=20of=20a=20full=20turn,=20which=20is=20outside=20[0?=
 =?UTF-8?q?,=202=CF=80)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ink/strokes/input/stroke_input_batch.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ink/strokes/input/stroke_input_batch.cc b/ink/strokes/input/stroke_input_batch.cc
index d22da46..708053f 100644
--- a/ink/strokes/input/stroke_input_batch.cc
+++ b/ink/strokes/input/stroke_input_batch.cc
@@ -145,7 +145,7 @@ absl::Status ValidateSingleInput(const StrokeInput& input) {
 
   if (!std::isfinite(input.orientation.ValueInRadians()) ||
       (input.HasOrientation() &&
-       !(input.orientation >= Angle() && input.orientation <= kFullTurn))) {
+       !(input.orientation >= Angle() && input.orientation < kFullTurn))) {
     return absl::InvalidArgumentError(
         absl::Substitute("`StrokeInput::orientation` must be -1 or in the "
                          "range [0, 2 * pi). Got: $0",
-- 
2.43.0


From 8bba95ea9c906af714ddde8317551eb0d7f5c384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 20/47] fix: StrokeInputBatch: appending a batch to itself

---
 ink/strokes/input/stroke_input_batch.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ink/strokes/input/stroke_input_batch.cc b/ink/strokes/input/stroke_input_batch.cc
index 708053f..12224a6 100644
--- a/ink/strokes/input/stroke_input_batch.cc
+++ b/ink/strokes/input/stroke_input_batch.cc
@@ -345,6 +345,9 @@ absl::Status StrokeInputBatch::Append(const StrokeInputBatch& inputs) {
   // this function will be called repeatedly with relatively small batches of
   // new inputs.
 
+  // If `inputs` is this batch, its data must not be read while being modified.
+  if (&inputs == this) return Append(StrokeInputBatch(inputs));
+
   std::vector<float>& data = data_.MutableValue();
   const std::vector<float>& append_data = inputs.data_.Value();
   data.insert(data.end(), append_data.begin(), append_data.end());
-- 
2.43.0


From 4ce55806d86c9604f74a2d581320b01d88320c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 21/47] fix: Stroke::SetInputs with the stroke's own inputs
 must not clear them

---
 ink/strokes/stroke.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ink/strokes/stroke.cc b/ink/strokes/stroke.cc
index cd6ad7f..666adda 100644
--- a/ink/strokes/stroke.cc
+++ b/ink/strokes/stroke.cc
@@ -125,8 +125,7 @@ absl::Status Stroke::SetBrushEpsilon(float epsilon) {
 }
 
 void Stroke::SetInputs(const StrokeInputBatch& inputs) {
-  inputs_.Clear();
-  ABSL_CHECK_OK(inputs_.Append(inputs));
+  inputs_ = inputs;
   RegenerateShape();
 }
 
-- 
2.43.0


From aca3b013b17d73fb354be3c492e91135d6d31369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 22/47] fix: InProgressStroke::UpdateShape: reject NaN elapsed
 time

---
 ink/strokes/in_progress_stroke.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ink/strokes/in_progress_stroke.cc b/ink/strokes/in_progress_stroke.cc
index fb38212..367798b 100644
--- a/ink/strokes/in_progress_stroke.cc
+++ b/ink/strokes/in_progress_stroke.cc
@@ -215,7 +215,8 @@ absl::Status InProgressStroke::ValidateNewInputs(
 
 absl::Status InProgressStroke::ValidateNewElapsedTime(
     Duration32 current_elapsed_time) const {
-  if (current_elapsed_time < Duration32::Zero()) {
+  // Written to also reject NaN.
+  if (!(current_elapsed_time >= Duration32::Zero())) {
     return absl::InvalidArgumentError(absl::StrFormat(
         "Values of `current_elapsed_time` must be non-negative. Got %v.",
         current_elapsed_time));
-- 
2.43.0


From a7a710835c5532675f03da57861883a706ffff8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 23/47] fix: InProgressStroke: a finished stroke that still
 shows predicted inputs needs an update

---
 ink/strokes/in_progress_stroke.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ink/strokes/in_progress_stroke.cc b/ink/strokes/in_progress_stroke.cc
index 367798b..e2e0a10 100644
--- a/ink/strokes/in_progress_stroke.cc
+++ b/ink/strokes/in_progress_stroke.cc
@@ -168,6 +168,8 @@ bool InProgressStroke::NeedsUpdate() const {
   if (!queued_real_inputs_.IsEmpty() || !queued_predicted_inputs_.IsEmpty()) {
     return true;
   }
+  // The next update will remove the predicted inputs from the finished stroke.
+  if (inputs_are_finished_ && PredictedInputCount() > 0) return true;
   uint32_t num_coats = BrushCoatCount();
   for (uint32_t coat_index = 0; coat_index < num_coats; ++coat_index) {
     if (shape_builders_[coat_index].HasUnfinishedTimeBehaviors()) {
-- 
2.43.0


From 3f8ee4daa6d1d9f5aa2f4f083ed61c54ea1a7e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 24/47] fix: InProgressStroke: drop predicted inputs together
 with their geometry

---
 ink/strokes/in_progress_stroke.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ink/strokes/in_progress_stroke.cc b/ink/strokes/in_progress_stroke.cc
index e2e0a10..3566f93 100644
--- a/ink/strokes/in_progress_stroke.cc
+++ b/ink/strokes/in_progress_stroke.cc
@@ -122,11 +122,8 @@ absl::Status InProgressStroke::UpdateShape(Duration32 current_elapsed_time) {
       !status.ok()) {
     return status;
   }
-  if (inputs_are_finished_ || !queued_real_inputs_.IsEmpty() ||
-      !queued_predicted_inputs_.IsEmpty()) {
-    // Erase any old predicted inputs.
-    processed_inputs_.Erase(real_input_count_);
-  }
+  // Erase any old predicted inputs; their geometry is removed below.
+  processed_inputs_.Erase(real_input_count_);
 
   if (absl::Status status = processed_inputs_.Append(queued_real_inputs_);
       !status.ok()) {
-- 
2.43.0


From 1e2c8b093216f0ee9b99d6b6468f30a70819d8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:01 +0000
Subject: [PATCH 25/47] fix: InProgressStroke: moving a stroke in progress left
 it using the old object's mesh

---
 ink/strokes/internal/stroke_shape_builder.cc |  9 ++++++++-
 ink/strokes/internal/stroke_shape_builder.h  | 10 +++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/ink/strokes/internal/stroke_shape_builder.cc b/ink/strokes/internal/stroke_shape_builder.cc
index 2a6fecb..d862656 100644
--- a/ink/strokes/internal/stroke_shape_builder.cc
+++ b/ink/strokes/internal/stroke_shape_builder.cc
@@ -16,17 +16,20 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <memory>
 
 #include "absl/log/absl_check.h"
 #include "absl/types/span.h"
 #include "ink/brush/brush_coat.h"
 #include "ink/brush/brush_family.h"
 #include "ink/brush/brush_paint.h"
+#include "ink/geometry/mutable_mesh.h"
 #include "ink/strokes/input/stroke_input_batch.h"
 #include "ink/strokes/internal/brush_tip_extruder.h"
 #include "ink/strokes/internal/brush_tip_modeler.h"
 #include "ink/strokes/internal/stroke_outline.h"
 #include "ink/strokes/internal/stroke_shape_update.h"
+#include "ink/strokes/internal/stroke_vertex.h"
 #include "ink/types/duration.h"
 
 namespace ink::strokes_internal {
@@ -49,6 +52,10 @@ void StrokeShapeBuilder::StartStroke(const BrushFamily::InputModel& input_model,
   // greater than zero.
   input_modeler_.StartStroke(input_model, brush_epsilon);
 
+  if (mesh_ == nullptr) {
+    // This builder has been moved from.
+    mesh_ = std::make_unique<MutableMesh>(StrokeVertex::FullMeshFormat());
+  }
   mesh_bounds_.Reset();
 
   tip_count_ = coat.tips.size();
@@ -79,7 +86,7 @@ void StrokeShapeBuilder::StartStroke(const BrushFamily::InputModel& input_model,
     // this will need to be more careful about how the various extruders append
     // onto the same mesh.
     tips_[i].extruder.StartStroke(brush_epsilon,
-                                  is_winding_texture_particle_brush, mesh_);
+                                  is_winding_texture_particle_brush, *mesh_);
   }
 }
 
diff --git a/ink/strokes/internal/stroke_shape_builder.h b/ink/strokes/internal/stroke_shape_builder.h
index 28ef824..952b907 100644
--- a/ink/strokes/internal/stroke_shape_builder.h
+++ b/ink/strokes/internal/stroke_shape_builder.h
@@ -17,6 +17,7 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <memory>
 
 #include "absl/container/inlined_vector.h"
 #include "absl/types/span.h"
@@ -107,7 +108,10 @@ class StrokeShapeBuilder {
   uint32_t BrushTipCount() const;
 
   StrokeInputModeler input_modeler_;
-  MutableMesh mesh_;
+  // The mesh is held by pointer because the extruders in `tips_` keep a view of
+  // it between updates, which must stay valid when this builder is moved. This
+  // is only null in a moved-from builder.
+  std::unique_ptr<MutableMesh> mesh_;
   Envelope mesh_bounds_;
 
   // The outlines for the brush coat. The size of this is at least equal to the
@@ -134,9 +138,9 @@ class StrokeShapeBuilder {
 //                     Implementation details below
 
 inline StrokeShapeBuilder::StrokeShapeBuilder()
-    : mesh_(StrokeVertex::FullMeshFormat()) {}
+    : mesh_(std::make_unique<MutableMesh>(StrokeVertex::FullMeshFormat())) {}
 
-inline const MutableMesh& StrokeShapeBuilder::GetMesh() const { return mesh_; }
+inline const MutableMesh& StrokeShapeBuilder::GetMesh() const { return *mesh_; }
 
 inline const Envelope& StrokeShapeBuilder::GetMeshBounds() const {
   return mesh_bounds_;
-- 
2.43.0


From d453527fefd2600c246f367f8aa741e2ef330894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:01 +0000
Subject: [PATCH 26/47] fix: StrokeInputModeler: no distance is traveled once
 the only inputs, predicted ones, are removed

---
 ink/strokes/internal/stroke_input_modeler.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ink/strokes/internal/stroke_input_modeler.cc b/ink/strokes/internal/stroke_input_modeler.cc
index d278753..315e68f 100644
--- a/ink/strokes/internal/stroke_input_modeler.cc
+++ b/ink/strokes/internal/stroke_input_modeler.cc
@@ -311,6 +311,7 @@ void StrokeInputModeler::UpdateStateTimeAndDistance(
     Duration32 current_elapsed_time) {
   if (modeled_inputs_.empty()) {
     state_.complete_elapsed_time = current_elapsed_time;
+    state_.complete_traveled_distance = 0;
     return;
   }
 
-- 
2.43.0


From 4f013226b9a897da2ca0ab08fd851325f14a4f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 27/47] fix: InProgressStroke: restarting a stroke with its own
 brush used the brush after destroying it

---
 ink/strokes/in_progress_stroke.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ink/strokes/in_progress_stroke.cc b/ink/strokes/in_progress_stroke.cc
index 3566f93..4aa7eba 100644
--- a/ink/strokes/in_progress_stroke.cc
+++ b/ink/strokes/in_progress_stroke.cc
@@ -16,6 +16,7 @@
 
 #include <cstdint>
 #include <optional>
+#include <utility>
 #include <vector>
 
 #include "absl/algorithm/container.h"
@@ -57,8 +58,11 @@ void InProgressStroke::Clear() {
 }
 
 void InProgressStroke::Start(const Brush& brush) {
+  // Copy first, because `brush` may be the brush of the current stroke, which
+  // `Clear()` destroys.
+  Brush new_brush = brush;
   Clear();
-  brush_ = brush;
+  brush_ = std::move(new_brush);
   inputs_are_finished_ = false;
 
   absl::Span<const BrushCoat> coats = brush_->GetCoats();
-- 
2.43.0


From c2e7b229a5959ad7645b767192c09091ea7c19e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:44 +0000
Subject: [PATCH 28/47] fix: StrokeOutline: a moved-from outline kept its
 counts but not its storage, so restarting a moved-from stroke crashed

---
 ink/strokes/internal/stroke_outline.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/internal/stroke_outline.h b/ink/strokes/internal/stroke_outline.h
index 546b5d8..c4c00cf 100644
--- a/ink/strokes/internal/stroke_outline.h
+++ b/ink/strokes/internal/stroke_outline.h
@@ -19,6 +19,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <memory>
+#include <utility>
 
 #include "absl/base/nullability.h"
 #include "absl/log/absl_check.h"
@@ -44,9 +45,14 @@ class StrokeOutline {
 
   StrokeOutline() = default;
   StrokeOutline(const StrokeOutline&) = delete;
-  StrokeOutline(StrokeOutline&&) = default;
   StrokeOutline& operator=(const StrokeOutline&) = delete;
-  StrokeOutline& operator=(StrokeOutline&&) = default;
+  // A moved-from outline is empty.
+  StrokeOutline(StrokeOutline&& other) noexcept
+      : index_storage_(std::exchange(other.index_storage_, IndexStorage())) {}
+  StrokeOutline& operator=(StrokeOutline&& other) noexcept {
+    index_storage_ = std::exchange(other.index_storage_, IndexStorage());
+    return *this;
+  }
   ~StrokeOutline() = default;
 
   // Adds new "left" and "right" indices to the outline at the end of the
-- 
2.43.0


From 1fd908797f2dda9e2cf74ee44e5b62c65661e57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:50 +0000
Subject: [PATCH 29/47] fix: InProgressStroke::UpdateShape: restore the plain
 time check; a Duration32 is never NaN

---
 ink/strokes/in_progress_stroke.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ink/strokes/in_progress_stroke.cc b/ink/strokes/in_progress_stroke.cc
index 4aa7eba..b3b6d3b 100644
--- a/ink/strokes/in_progress_stroke.cc
+++ b/ink/strokes/in_progress_stroke.cc
@@ -218,8 +218,7 @@ absl::Status InProgressStroke::ValidateNewInputs(
 
 absl::Status InProgressStroke::ValidateNewElapsedTime(
     Duration32 current_elapsed_time) const {
-  // Written to also reject NaN.
-  if (!(current_elapsed_time >= Duration32::Zero())) {
+  if (current_elapsed_time < Duration32::Zero()) {
     return absl::InvalidArgumentError(absl::StrFormat(
         "Values of `current_elapsed_time` must be non-negative. Got %v.",
         current_elapsed_time));
-- 
2.43.0


From 196119d26a8e4cc4a61420c290c1d365e871daf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:31 +0000
Subject: [PATCH 30/47] fix: brush tip extruder: simplification could turn an
 existing triangle clockwise, covering area far outside the stroke

---
 .../internal/brush_tip_extruder/geometry.cc   | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/ink/strokes/internal/brush_tip_extruder/geometry.cc b/ink/strokes/internal/brush_tip_extruder/geometry.cc
index d94e6ad..ffc4f01 100644
--- a/ink/strokes/internal/brush_tip_extruder/geometry.cc
+++ b/ink/strokes/internal/brush_tip_extruder/geometry.cc
@@ -903,6 +903,30 @@ void Geometry::SimplifyBufferedVertices(Side& side,
     should_replace_last_vertex = false;
   }
 
+  if (should_replace_last_vertex) {
+    // `PrepBufferedVerticesForNextExtrusion()` ensures that only the last two
+    // triangles can use the last vertex. Don't replace that vertex if one of
+    // them would change from counter-clockwise to clockwise as a result.
+    IndexType last_index = side.indices.back();
+    uint32_t n_triangles = mesh_.TriangleCount();
+    for (uint32_t i = n_triangles < 2 ? 0 : n_triangles - 2;
+         i < n_triangles && should_replace_last_vertex; ++i) {
+      std::array<Point, 3> before;
+      std::array<Point, 3> after;
+      for (int j = 0; j < 3; ++j) {
+        IndexType index = mesh_.GetVertexIndex(i, j);
+        before[j] = mesh_.GetPosition(index);
+        after[j] = index == last_index
+                       ? simplification_vertex_buffer_[1].position
+                       : before[j];
+      }
+      if (Triangle{before[0], before[1], before[2]}.SignedArea() > 0 &&
+          Triangle{after[0], after[1], after[2]}.SignedArea() < 0) {
+        should_replace_last_vertex = false;
+      }
+    }
+  }
+
   // If the opposite side is undergoing an intersection, then replacing a vertex
   // on the opposite side is conceptually similar to appending a CCW opposite
   // triangle. We must perform a similar action to line_mesh_generation.md#5 or
-- 
2.43.0


From e19c4f68a396724fecbbdac8d430223cddff8f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:17 +0000
Subject: [PATCH 31/47] fix: BrushTipModeler: fixed tip states must wait for
 the next input when a target offsets along the travel direction

---
 ink/strokes/internal/brush_tip_modeler.cc | 27 +++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/ink/strokes/internal/brush_tip_modeler.cc b/ink/strokes/internal/brush_tip_modeler.cc
index b96db30..c3eadbb 100644
--- a/ink/strokes/internal/brush_tip_modeler.cc
+++ b/ink/strokes/internal/brush_tip_modeler.cc
@@ -260,6 +260,30 @@ bool SourceDependsOnNextModeledInput(BrushBehavior::Source source) {
   return false;
 }
 
+bool TargetDependsOnNextModeledInput(BrushBehavior::Target target) {
+  switch (target) {
+    // These offsets are relative to the travel direction.
+    case BrushBehavior::Target::kPositionOffsetForwardInMultiplesOfBrushSize:
+    case BrushBehavior::Target::kPositionOffsetLateralInMultiplesOfBrushSize:
+      return true;
+    case BrushBehavior::Target::kWidthMultiplier:
+    case BrushBehavior::Target::kHeightMultiplier:
+    case BrushBehavior::Target::kSizeMultiplier:
+    case BrushBehavior::Target::kSlantOffsetInRadians:
+    case BrushBehavior::Target::kPinchOffset:
+    case BrushBehavior::Target::kRotationOffsetInRadians:
+    case BrushBehavior::Target::kCornerRoundingOffset:
+    case BrushBehavior::Target::kPositionOffsetXInMultiplesOfBrushSize:
+    case BrushBehavior::Target::kPositionOffsetYInMultiplesOfBrushSize:
+    case BrushBehavior::Target::kHueOffsetInRadians:
+    case BrushBehavior::Target::kSaturationMultiplier:
+    case BrushBehavior::Target::kLuminosity:
+    case BrushBehavior::Target::kOpacityMultiplier:
+      break;
+  }
+  return false;
+}
+
 Duration32 TimeSinceLastInput(
     const StrokeInputModeler::State& input_modeler_state) {
   // TODO: b/287041801 - Do we need to consider predicted inputs here too?
@@ -370,6 +394,9 @@ void BrushTipModeler::AppendBehaviorNode(
       .target_modifier_range = node.target_modifier_range,
   });
   behavior_targets_.push_back(node.target);
+  if (TargetDependsOnNextModeledInput(node.target)) {
+    behaviors_depend_on_next_input_ = true;
+  }
   float initial_modifier = InitialTargetModifierValue(node.target);
   current_target_modifiers_.push_back(initial_modifier);
   fixed_target_modifiers_.push_back(initial_modifier);
-- 
2.43.0


From f2fb82f2950a75d8adc4761f3823873d25c9decc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:17 +0000
Subject: [PATCH 32/47] fix: Lerp(ModeledStrokeInput): keep missing pressure,
 tilt and orientation missing instead of interpolating the sentinels

---
 .../internal/brush_tip_modeler_helpers.cc     | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_modeler_helpers.cc b/ink/strokes/internal/brush_tip_modeler_helpers.cc
index cf52d25..5bea5f5 100644
--- a/ink/strokes/internal/brush_tip_modeler_helpers.cc
+++ b/ink/strokes/internal/brush_tip_modeler_helpers.cc
@@ -634,6 +634,14 @@ BrushTipState CreateTipState(Point position, std::optional<Angle> direction,
 
 ModeledStrokeInput Lerp(const ModeledStrokeInput& a,
                         const ModeledStrokeInput& b, float t) {
+  // The optional properties are only present in the result if both inputs have
+  // them; their sentinel values must not be interpolated.
+  bool has_pressure = a.pressure != StrokeInput::kNoPressure &&
+                      b.pressure != StrokeInput::kNoPressure;
+  bool has_tilt =
+      a.tilt != StrokeInput::kNoTilt && b.tilt != StrokeInput::kNoTilt;
+  bool has_orientation = a.orientation != StrokeInput::kNoOrientation &&
+                         b.orientation != StrokeInput::kNoOrientation;
   return {.position = geometry_internal::Lerp(a.position, b.position, t),
           .velocity = geometry_internal::Lerp(a.velocity, b.velocity, t),
           .acceleration =
@@ -642,10 +650,15 @@ ModeledStrokeInput Lerp(const ModeledStrokeInput& a,
                                                        b.traveled_distance, t),
           .elapsed_time = Duration32::Millis(geometry_internal::Lerp(
               a.elapsed_time.ToMillis(), b.elapsed_time.ToMillis(), t)),
-          .pressure = geometry_internal::Lerp(a.pressure, b.pressure, t),
-          .tilt = geometry_internal::Lerp(a.tilt, b.tilt, t),
-          .orientation = geometry_internal::NormalizedAngleLerp(
-              a.orientation, b.orientation, t)};
+          .pressure = has_pressure
+                          ? geometry_internal::Lerp(a.pressure, b.pressure, t)
+                          : StrokeInput::kNoPressure,
+          .tilt = has_tilt ? geometry_internal::Lerp(a.tilt, b.tilt, t)
+                           : StrokeInput::kNoTilt,
+          .orientation = has_orientation
+                             ? geometry_internal::NormalizedAngleLerp(
+                                   a.orientation, b.orientation, t)
+                             : StrokeInput::kNoOrientation};
 }
 
 }  // namespace ink::strokes_internal
-- 
2.43.0


From 29846fd175bb5ff122829c126d1b1810d1a9150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:17 +0000
Subject: [PATCH 33/47] fix: brush behaviors: kRepeat returned 1 instead of a
 value below 1 for tiny negative inputs

---
 ink/strokes/internal/brush_tip_modeler_helpers.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_modeler_helpers.cc b/ink/strokes/internal/brush_tip_modeler_helpers.cc
index 5bea5f5..2572e97 100644
--- a/ink/strokes/internal/brush_tip_modeler_helpers.cc
+++ b/ink/strokes/internal/brush_tip_modeler_helpers.cc
@@ -257,8 +257,13 @@ float ApplyOutOfRangeBehavior(BrushBehavior::OutOfRange behavior, float x) {
   switch (behavior) {
     case BrushBehavior::OutOfRange::kClamp:
       return std::clamp(x, 0.f, 1.f);
-    case BrushBehavior::OutOfRange::kRepeat:
-      return x - std::floor(x);
+    case BrushBehavior::OutOfRange::kRepeat: {
+      float result = x - std::floor(x);
+      // For a negative `x` close to zero, the difference can get rounded up to
+      // 1, which is outside of the half-open interval.
+      if (result >= 1) return 0;
+      return result;
+    }
     case BrushBehavior::OutOfRange::kMirror:
       return std::abs(x - 2 * std::round(0.5f * x));
   }
-- 
2.43.0


From 1b506961c843cf5ddafe87fbe84455fcbaecdae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:17 +0000
Subject: [PATCH 34/47] fix: brush behaviors: treat an overflowing target
 modifier as null instead of producing a non-finite modifier

---
 ink/strokes/internal/brush_tip_modeler_helpers.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ink/strokes/internal/brush_tip_modeler_helpers.cc b/ink/strokes/internal/brush_tip_modeler_helpers.cc
index 2572e97..a3a293f 100644
--- a/ink/strokes/internal/brush_tip_modeler_helpers.cc
+++ b/ink/strokes/internal/brush_tip_modeler_helpers.cc
@@ -470,8 +470,12 @@ void ProcessBehaviorNodeImpl(const TargetNodeImplementation& node,
   float input = context.stack.back();
   context.stack.pop_back();
   if (IsNullBehaviorNodeValue(input)) return;
-  context.target_modifiers[node.target_index] =
+  float modifier =
       Lerp(node.target_modifier_range[0], node.target_modifier_range[1], input);
+  // If the above resulted in a non-finite value (e.g. overflow to infinity),
+  // treat the input as null.
+  if (!std::isfinite(modifier)) return;
+  context.target_modifiers[node.target_index] = modifier;
 }
 
 }  // namespace
-- 
2.43.0


From 7fa2ee1f001c374573e2db8bf5f146339f2e0def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:47 +0000
Subject: [PATCH 35/47] fix: brush tip shapes: combine perimeter circles that
 slant and pinch make coincide or collinear (aborts, looping outlines,
 Contains(self) false)

---
 ink/strokes/internal/brush_tip_shape.cc | 66 +++++++++++++++++++++++--
 1 file changed, 62 insertions(+), 4 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_shape.cc b/ink/strokes/internal/brush_tip_shape.cc
index 13a5536..8aa764d 100644
--- a/ink/strokes/internal/brush_tip_shape.cc
+++ b/ink/strokes/internal/brush_tip_shape.cc
@@ -15,6 +15,7 @@
 #include "ink/strokes/internal/brush_tip_shape.h"
 
 #include <algorithm>
+#include <cmath>
 #include <cstddef>
 #include <cstdint>
 #include <limits>
@@ -143,14 +144,71 @@ SmallArray<Circle, 4> MakeShapeControlCircles(
   };
 }
 
+// Removes circles that do not contribute to the shape from the convex loop
+// given by `circles`. These are:
+//   * circles with centers closer than `min_nonzero_radius_and_separation` to
+//     that of the next circle, and
+//   * circles with centers on the line between their neighbors, up to the
+//     precision of the coordinates.
+//
+// Both can come up when slant flattens the shape, or when the position is so
+// far from the origin that the shape is not much bigger than the precision of
+// its coordinates. Since all circles have the same radius, any of the former
+// would contain one another, and the latter can have any order.
+SmallArray<Circle, 4> RemoveRedundantCircles(
+    absl::Span<const Circle> circles, float min_nonzero_radius_and_separation) {
+  absl::InlinedVector<Circle, 4> result(circles.begin(), circles.end());
+
+  float max_coordinate = 0;
+  for (const Circle& circle : circles) {
+    max_coordinate =
+        std::max({max_coordinate, std::abs(circle.Center().x),
+                  std::abs(circle.Center().y)});
+  }
+  float collinear_tol =
+      4 * std::numeric_limits<float>::epsilon() * max_coordinate;
+
+  size_t i = 0;
+  while (i < result.size() && result.size() > 1) {
+    Point center = result[i].Center();
+    Point next = result[(i + 1) % result.size()].Center();
+    bool redundant =
+        (next - center).Magnitude() < min_nonzero_radius_and_separation;
+    if (!redundant && result.size() > 2) {
+      Point previous =
+          result[(i + result.size() - 1) % result.size()].Center();
+      std::optional<float> projection =
+          Segment{previous, next}.Project(center);
+      redundant = projection.has_value() && *projection >= 0 &&
+                  *projection <= 1 &&
+                  std::abs(Vec::Determinant(next - previous,
+                                            center - previous)) <=
+                      collinear_tol * (next - previous).Magnitude();
+    }
+    if (redundant) {
+      result.erase(result.begin() + i);
+      // The neighbors may have become redundant.
+      i = 0;
+    } else {
+      ++i;
+    }
+  }
+
+  return SmallArray<Circle, 4>(absl::MakeConstSpan(result));
+}
+
 }  // namespace
 
 BrushTipShape::BrushTipShape(const BrushTipState& tip_state,
                              float min_nonzero_radius_and_separation)
-    : center_(tip_state.position),
-      circles_(MakeShapeControlCircles(
-          tip_state, std::max(min_nonzero_radius_and_separation,
-                              std::numeric_limits<float>::min()))) {}
+    : center_(tip_state.position) {
+  min_nonzero_radius_and_separation = std::max(
+      min_nonzero_radius_and_separation, std::numeric_limits<float>::min());
+  circles_ = RemoveRedundantCircles(
+      MakeShapeControlCircles(tip_state, min_nonzero_radius_and_separation)
+          .Values(),
+      min_nonzero_radius_and_separation);
+}
 
 Point BrushTipShape::Center() const { return center_; }
 
-- 
2.43.0


From 8a3582c05fd6f584b4c14942ab597344c7efd0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:47 +0000
Subject: [PATCH 36/47] fix: brush tip extrusion: tangents to a pinched or
 enclosing shape may not exist; report bad tangents instead of aborting

---
 ink/strokes/internal/brush_tip_extrusion.cc | 14 +++++++++++++
 ink/strokes/internal/brush_tip_shape.cc     | 22 ++++++++-------------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_extrusion.cc b/ink/strokes/internal/brush_tip_extrusion.cc
index a720bfa..95a2f6c 100644
--- a/ink/strokes/internal/brush_tip_extrusion.cc
+++ b/ink/strokes/internal/brush_tip_extrusion.cc
@@ -89,6 +89,20 @@ BrushTipExtrusion::TangentQuality EvaluateTangentQualityInternal(
   BrushTipShape::TangentCircleIndices indices =
       BrushTipShape::GetTangentCircleIndices(first, second);
 
+  // The indices are a best guess if there are no circles that can be connected
+  // without traveling backwards; we can only construct the joined shape if
+  // neither of the connected circles contains the other.
+  auto has_tangents = [](const Circle& a, const Circle& b) {
+    return !a.Contains(b) && !b.Contains(a);
+  };
+  if (!has_tangents(first.PerimeterCircles()[indices.left.first],
+                    second.PerimeterCircles()[indices.left.second]) ||
+      !has_tangents(first.PerimeterCircles()[indices.right.first],
+                    second.PerimeterCircles()[indices.right.second])) {
+    return BrushTipExtrusion::TangentQuality::
+        kBadTangentsJoinedShapeDoesNotCoverInputShapes;
+  }
+
   // If the first circle is immediately *clockwise* to the last circle for
   // each shape, then all circles contribute to the boundary of the joined
   // shape and there are no unused circles.
diff --git a/ink/strokes/internal/brush_tip_shape.cc b/ink/strokes/internal/brush_tip_shape.cc
index 8aa764d..99d8b86 100644
--- a/ink/strokes/internal/brush_tip_shape.cc
+++ b/ink/strokes/internal/brush_tip_shape.cc
@@ -388,12 +388,10 @@ BrushTipShape::TangentCircleIndices BrushTipShape::GetTangentCircleIndices(
         GetLeftmostTurningIndex(first.circles_[0], forward, second, -kHalfTurn);
     std::optional<int> second_right =
         GetRightmostTurningIndex(first.circles_[0], forward, second, kHalfTurn);
-    // It should be impossible for the second indices to not have a value with
-    // the relaxed threshold and limit angles. At least one perimeter circle in
-    // `second` should not be traveling backwards relative to `forward`.
-    ABSL_DCHECK(second_left.has_value());
-    ABSL_DCHECK(second_right.has_value());
-
+    // The indices have no value if every perimeter circle of `second` either
+    // overlaps the one of `first` completely, or is traveling backwards relative
+    // to `forward`. This can happen when `second` is pinched or much larger than
+    // the distance traveled.
     return TangentCircleIndices{std::make_pair(0, second_left.value_or(0)),
                                 std::make_pair(0, second_right.value_or(0))};
   }
@@ -444,10 +442,8 @@ BrushTipShape::TangentCircleIndices BrushTipShape::GetTangentCircleIndices(
     // find an index on `second`.
     std::optional<int> index_on_second = GetLeftmostTurningIndex(
         first.circles_[indices.left.first], forward, second, -kHalfTurn);
-    // It should be impossible for the second index to not have a value. At
-    // least one control point in second should not be traveling backwards from
-    // the rearmost control point in `first`.
-    ABSL_DCHECK(index_on_second.has_value());
+    // As above, this has no value if every perimeter circle of `second` overlaps
+    // the rearmost one of `first`, or is traveling backwards from it.
     indices.left.second = index_on_second.value_or(0);
   }
 
@@ -480,10 +476,8 @@ BrushTipShape::TangentCircleIndices BrushTipShape::GetTangentCircleIndices(
     // index on `second`.
     std::optional<int> index_on_second = GetRightmostTurningIndex(
         first.circles_[indices.right.first], forward, second, kHalfTurn);
-    // It should be impossible for the second index to not have a value. At
-    // least one control point in second should not be traveling backwards from
-    // the rearmost control point in `first`.
-    ABSL_DCHECK(index_on_second.has_value());
+    // As above, this has no value if every perimeter circle of `second` overlaps
+    // the rearmost one of `first`, or is traveling backwards from it.
     indices.right.second = index_on_second.value_or(0);
   }
 
-- 
2.43.0


From 5282225cf8764a866241c5d2b8f35004912b64cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:47 +0000
Subject: [PATCH 37/47] fix: brush tip extrusion: every circle must be inside
 the joined shape for its tangents to be good

---
 ink/strokes/internal/brush_tip_extrusion.cc | 36 ++++++---------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_extrusion.cc b/ink/strokes/internal/brush_tip_extrusion.cc
index 95a2f6c..60a0b0f 100644
--- a/ink/strokes/internal/brush_tip_extrusion.cc
+++ b/ink/strokes/internal/brush_tip_extrusion.cc
@@ -103,17 +103,6 @@ BrushTipExtrusion::TangentQuality EvaluateTangentQualityInternal(
         kBadTangentsJoinedShapeDoesNotCoverInputShapes;
   }
 
-  // If the first circle is immediately *clockwise* to the last circle for
-  // each shape, then all circles contribute to the boundary of the joined
-  // shape and there are no unused circles.
-  // NOMUTANTS -- This is just a short-circuit for performance.
-  if (first.GetNextPerimeterIndexCw(indices.left.first) ==
-          indices.right.first &&
-      second.GetNextPerimeterIndexCw(indices.right.second) ==
-          indices.left.second) {
-    return BrushTipExtrusion::TangentQuality::kGoodTangents;
-  }
-
   // In order to avoid false-negatives from `RoundedPolygon::ContainsCircle` due
   // to floating-point precision issues, we enlarge the joined shape by a small
   // amount.
@@ -130,21 +119,16 @@ BrushTipExtrusion::TangentQuality EvaluateTangentQualityInternal(
   RoundedPolygon joined_shape =
       ConstructJoinedShape(first, second, indices, offset);
 
-  // Finally, check whether the unused circles are contained inside the joined
-  // shape.
-  for (int index = first.GetNextPerimeterIndexCcw(indices.right.first);
-       index != indices.left.first;
-       index = first.GetNextPerimeterIndexCcw(index)) {
-    if (!joined_shape.ContainsCircle(first.PerimeterCircles()[index]))
-      return BrushTipExtrusion::TangentQuality::
-          kBadTangentsJoinedShapeDoesNotCoverInputShapes;
-  }
-  for (int index = second.GetNextPerimeterIndexCcw(indices.left.second);
-       index != indices.right.second;
-       index = second.GetNextPerimeterIndexCcw(index)) {
-    if (!joined_shape.ContainsCircle(second.PerimeterCircles()[index]))
-      return BrushTipExtrusion::TangentQuality::
-          kBadTangentsJoinedShapeDoesNotCoverInputShapes;
+  // Finally, check whether the circles are contained inside the joined shape.
+  // This includes the ones used for its boundary, since that can cut off a part
+  // of a circle if e.g. `second` is a line that passes through a circle `first`.
+  for (const BrushTipShape* shape : {&first, &second}) {
+    for (const Circle& circle : shape->PerimeterCircles()) {
+      if (!joined_shape.ContainsCircle(circle)) {
+        return BrushTipExtrusion::TangentQuality::
+            kBadTangentsJoinedShapeDoesNotCoverInputShapes;
+      }
+    }
   }
 
   return BrushTipExtrusion::TangentQuality::kGoodTangents;
-- 
2.43.0


From 5cba2dd3371315338ea799524f3ca36aeabd6946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:47 +0000
Subject: [PATCH 38/47] fix: brush tip shapes: the tangent search gave up on
 circles straight behind because of the sign of a half turn

---
 ink/strokes/internal/brush_tip_shape.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_shape.cc b/ink/strokes/internal/brush_tip_shape.cc
index 99d8b86..2ab8f95 100644
--- a/ink/strokes/internal/brush_tip_shape.cc
+++ b/ink/strokes/internal/brush_tip_shape.cc
@@ -428,9 +428,14 @@ BrushTipShape::TangentCircleIndices BrushTipShape::GetTangentCircleIndices(
     // we should always be able to find tangents.
     ABSL_CHECK(tangent.has_value());
 
+    // Going clockwise from the rearmost circle only ever turns right, so past
+    // the front of `first` the turn angle is less than -π/2.
+    Angle threshold_angle = tangent->turn_angle;
+    if (i > 0 && threshold_angle > kQuarterTurn) threshold_angle -= kFullTurn;
+
     if (auto index_on_second =
             GetLeftmostTurningIndex(first.circles_[candidate_index_on_first],
-                                    forward, second, tangent->turn_angle)) {
+                                    forward, second, threshold_angle)) {
       found_tangents = true;
       indices.left = {candidate_index_on_first, *index_on_second};
       break;
@@ -462,9 +467,13 @@ BrushTipShape::TangentCircleIndices BrushTipShape::GetTangentCircleIndices(
     // we should always be able to find tangents.
     ABSL_CHECK(tangent.has_value());
 
+    // As above, past the front of `first` the turn angle is more than π/2.
+    Angle limit_angle = tangent->turn_angle;
+    if (i > 0 && limit_angle < -kQuarterTurn) limit_angle += kFullTurn;
+
     if (auto index_on_second =
             GetRightmostTurningIndex(first.circles_[candidate_index_on_first],
-                                     forward, second, tangent->turn_angle)) {
+                                     forward, second, limit_angle)) {
       found_tangents = true;
       indices.right = {candidate_index_on_first, *index_on_second};
       break;
-- 
2.43.0


From 9433b4e682f07908f248ee6617c4e5d0a9d45a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:47 +0000
Subject: [PATCH 39/47] fix: rounded polygons: half-circle arcs were ignored
 when testing for containment

---
 ink/strokes/internal/rounded_polygon.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/internal/rounded_polygon.cc b/ink/strokes/internal/rounded_polygon.cc
index 0c3d154..e827432 100644
--- a/ink/strokes/internal/rounded_polygon.cc
+++ b/ink/strokes/internal/rounded_polygon.cc
@@ -80,10 +80,13 @@ std::optional<float> SignedDistanceToArc(const RoundedPolygon::Arc& arc,
   Vec circle_center_to_point_vector = point - arc.circle.Center();
   float arc_vector_det =
       Vec::Determinant(arc.start_unit_vector, arc.end_unit_vector);
-  if (std::abs(arc_vector_det) < 5e-6) {
+  if (std::abs(arc_vector_det) < 5e-6 &&
+      Vec::DotProduct(arc.start_unit_vector, arc.end_unit_vector) > 0) {
     // The start and end vector are sufficiently close that we consider there to
     // be no arc. This includes the case where the arc nominally loops all the
-    // way around, which can occur due to floating-point precision loss.
+    // way around, which can occur due to floating-point precision loss. It does
+    // not include the case where the vectors are antiparallel, i.e. the arc is
+    // half of the circle.
     return std::nullopt;
   } else if (arc_vector_det < 0) {
     // This is a major arc (i.e. it winds around the long way); `point` is
-- 
2.43.0


From 0e1aa2307d50c9f79bfd5e4ca9fd3608b7aa5ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:47 +0000
Subject: [PATCH 40/47] fix: brush tip shapes: the end cap left out the far
 circle of a capsule traveling along its axis

---
 ink/strokes/internal/brush_tip_shape.cc | 41 +++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_shape.cc b/ink/strokes/internal/brush_tip_shape.cc
index 2ab8f95..f749ecb 100644
--- a/ink/strokes/internal/brush_tip_shape.cc
+++ b/ink/strokes/internal/brush_tip_shape.cc
@@ -359,6 +359,40 @@ std::optional<int> GetRightmostTurningIndex(const Circle& starting_circle,
   return std::nullopt;
 }
 
+// Moves both of the `indices` into the perimeter circles of `second` on to the
+// farther of its two circles, if the closer one is merely on the way there.
+//
+// When a shape with two perimeter circles travels along its own axis, both of
+// its circles touch the tangent on both sides. Taking the closest circle to
+// resolve that tie is fine as long as it is only done for one side; if it is
+// done for both, then the farther circle is not part of the outline at all.
+void IncludeFarCircleAlongTravelAxis(
+    const BrushTipShape& first, const BrushTipShape& second,
+    BrushTipShape::TangentCircleIndices& indices) {
+  if (second.PerimeterCircles().size() != 2 ||
+      indices.left.second != indices.right.second ||
+      indices.left.first != indices.right.first) {
+    return;
+  }
+
+  const Circle& start = first.PerimeterCircles()[indices.left.first];
+  const Circle& near = second.PerimeterCircles()[indices.left.second];
+  const Circle& far = second.PerimeterCircles()[1 - indices.left.second];
+  float tol = 1e-6 * std::max({std::abs(start.Center().x),
+                               std::abs(start.Center().y),
+                               std::abs(far.Center().x),
+                               std::abs(far.Center().y)});
+  if (std::abs(start.Radius() - near.Radius()) > tol) return;
+
+  Segment axis{start.Center(), far.Center()};
+  std::optional<float> projection = axis.Project(near.Center());
+  if (!projection.has_value() || *projection < 0 || *projection > 1 ||
+      (axis.Lerp(*projection) - near.Center()).Magnitude() > tol) {
+    return;
+  }
+  indices.left.second = indices.right.second = 1 - indices.left.second;
+}
+
 Vec GetForwardDirectionWithFallback(const BrushTipShape& first,
                                     const BrushTipShape& second) {
   return first.Center() == second.Center()
@@ -392,8 +426,10 @@ BrushTipShape::TangentCircleIndices BrushTipShape::GetTangentCircleIndices(
     // overlaps the one of `first` completely, or is traveling backwards relative
     // to `forward`. This can happen when `second` is pinched or much larger than
     // the distance traveled.
-    return TangentCircleIndices{std::make_pair(0, second_left.value_or(0)),
-                                std::make_pair(0, second_right.value_or(0))};
+    TangentCircleIndices indices{std::make_pair(0, second_left.value_or(0)),
+                                 std::make_pair(0, second_right.value_or(0))};
+    IncludeFarCircleAlongTravelAxis(first, second, indices);
+    return indices;
   }
 
   // We do something akin to a Jarvis march
@@ -490,6 +526,7 @@ BrushTipShape::TangentCircleIndices BrushTipShape::GetTangentCircleIndices(
     indices.right.second = index_on_second.value_or(0);
   }
 
+  IncludeFarCircleAlongTravelAxis(first, second, indices);
   return indices;
 }
 
-- 
2.43.0


From 14de130613946bce68e2b555b2375d86ccbce9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:47 +0000
Subject: [PATCH 41/47] fix: circular extrusion: collinear tangents added a
 full loop on the left instead of nothing

---
 ink/strokes/internal/circular_extrusion_helpers.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ink/strokes/internal/circular_extrusion_helpers.cc b/ink/strokes/internal/circular_extrusion_helpers.cc
index f6f4c38..d0b236f 100644
--- a/ink/strokes/internal/circular_extrusion_helpers.cc
+++ b/ink/strokes/internal/circular_extrusion_helpers.cc
@@ -122,11 +122,12 @@ void AppendCircularTurnExtrusionPoints(
   auto add_left_arc = [&]() {
     if (left_points == nullptr) return;
 
-    // "Normalize" the left arc angle to be in [-2π, 0) radians so that the arc
+    // "Normalize" the left arc angle to be in (-2π, 0] radians so that the arc
     // is traversed on the "left" side of the circle given the travel
-    // directions.  Note that we have ordered the angles above such that
-    // `incoming_angles->left` is the smallest value.
-    Angle arc_angle = outgoing_angles->left - incoming_angles->left - kFullTurn;
+    // directions. Note that collinear tangents (i.e. equal angles) must result
+    // in an empty arc instead of a full loop.
+    Angle arc_angle =
+        -(incoming_angles->left - outgoing_angles->left).Normalized();
     middle.AppendArcToPolyline(incoming_angles->left, arc_angle,
                                max_chord_height, *left_points);
   };
-- 
2.43.0


From 8c0e6adb83463c4cc65ee0ef2d539420339077fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:34 +0000
Subject: [PATCH 42/47] fix: brush JNI: a texture layer that fails validation
 was leaked

---
 ink/brush/internal/jni/brush_paint_jni.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ink/brush/internal/jni/brush_paint_jni.cc b/ink/brush/internal/jni/brush_paint_jni.cc
index 89ad8fd..53d4f5f 100644
--- a/ink/brush/internal/jni/brush_paint_jni.cc
+++ b/ink/brush/internal/jni/brush_paint_jni.cc
@@ -124,7 +124,7 @@ JNI_METHOD_INNER(brush, BrushPaint, TextureLayer, jlong,
 
   if (!status.ok()) {
     ink::jni::ThrowExceptionFromStatus(env, status);
-    // delete texture_layer;
+    delete texture_layer;
     return -1;
   }
   return reinterpret_cast<jlong>(texture_layer);
-- 
2.43.0


From d617982ba9b51dc9727751c1b10df13824a2d4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:34 +0000
Subject: [PATCH 43/47] fix: strokes JNI: durations and times in milliseconds
 were truncated instead of rounded

---
 ink/strokes/internal/jni/stroke_input_batch_jni.cc  | 3 ++-
 ink/strokes/internal/jni/stroke_input_jni_helper.cc | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/internal/jni/stroke_input_batch_jni.cc b/ink/strokes/internal/jni/stroke_input_batch_jni.cc
index b7b782c..eb6e85b 100644
--- a/ink/strokes/internal/jni/stroke_input_batch_jni.cc
+++ b/ink/strokes/internal/jni/stroke_input_batch_jni.cc
@@ -14,6 +14,7 @@
 
 #include <jni.h>
 
+#include <cmath>
 #include <optional>
 
 #include "absl/log/absl_check.h"
@@ -67,7 +68,7 @@ STROKE_INPUT_BATCH_JNI_METHOD(jlong, getDurationMillis)
 (JNIEnv* env, jobject thiz, jlong native_pointer) {
   const ink::StrokeInputBatch& batch =
       ink::CastToStrokeInputBatch(native_pointer);
-  return batch.GetDuration().ToMillis();
+  return std::llround(batch.GetDuration().ToMillis());
 }
 
 STROKE_INPUT_BATCH_JNI_METHOD(jint, getToolType)
diff --git a/ink/strokes/internal/jni/stroke_input_jni_helper.cc b/ink/strokes/internal/jni/stroke_input_jni_helper.cc
index 8fc31f5..dfd677a 100644
--- a/ink/strokes/internal/jni/stroke_input_jni_helper.cc
+++ b/ink/strokes/internal/jni/stroke_input_jni_helper.cc
@@ -16,6 +16,8 @@
 
 #include <jni.h>
 
+#include <cmath>
+
 #include "absl/log/absl_check.h"
 #include "ink/geometry/angle.h"
 #include "ink/jni/internal/jni_defines.h"
@@ -89,7 +91,7 @@ void UpdateJObjectInput(JNIEnv* env, const StrokeInput& input_in,
   ABSL_CHECK(strokeinput_update_methodID)
       << "StrokeInput.update method not found.";
 
-  jlong elapsed_time_millis = input_in.elapsed_time.ToMillis();
+  jlong elapsed_time_millis = std::llround(input_in.elapsed_time.ToMillis());
   env->CallVoidMethod(
       j_input_out, strokeinput_update_methodID, input_in.position.x,
       input_in.position.y, elapsed_time_millis, j_inputtooltype,
-- 
2.43.0


From 58db6e304335066eaa16f47808e7093d3c27e606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:42 +0000
Subject: [PATCH 44/47] fix: brush tip shape: a stadium travelling along its
 own axis could lose its rear circle at a cap

---
 ink/strokes/internal/brush_tip_shape.cc | 67 +++++++++++++++----------
 1 file changed, 41 insertions(+), 26 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_shape.cc b/ink/strokes/internal/brush_tip_shape.cc
index f749ecb..9a867f4 100644
--- a/ink/strokes/internal/brush_tip_shape.cc
+++ b/ink/strokes/internal/brush_tip_shape.cc
@@ -359,38 +359,53 @@ std::optional<int> GetRightmostTurningIndex(const Circle& starting_circle,
   return std::nullopt;
 }
 
-// Moves both of the `indices` into the perimeter circles of `second` on to the
-// farther of its two circles, if the closer one is merely on the way there.
+// Returns true if `near` has the same radius as the other two circles, and lies
+// on the way from `far` to `other`.
+bool IsOnTheWay(const Circle& far, const Circle& near, const Circle& other) {
+  float tol =
+      1e-6 * std::max({std::abs(far.Center().x), std::abs(far.Center().y),
+                       std::abs(other.Center().x), std::abs(other.Center().y)});
+  if (std::abs(near.Radius() - far.Radius()) > tol ||
+      std::abs(near.Radius() - other.Radius()) > tol) {
+    return false;
+  }
+  Segment axis{far.Center(), other.Center()};
+  std::optional<float> projection = axis.Project(near.Center());
+  return projection.has_value() && *projection >= 0 && *projection <= 1 &&
+         (axis.Lerp(*projection) - near.Center()).Magnitude() <= tol;
+}
+
+// For each of `first` and `second`, moves both of the `indices` into its
+// perimeter circles on to the farther of two circles, if the closer one is
+// merely on the way there.
 //
 // When a shape with two perimeter circles travels along its own axis, both of
 // its circles touch the tangent on both sides. Taking the closest circle to
 // resolve that tie is fine as long as it is only done for one side; if it is
 // done for both, then the farther circle is not part of the outline at all.
-void IncludeFarCircleAlongTravelAxis(
+void IncludeFarCirclesAlongTravelAxis(
     const BrushTipShape& first, const BrushTipShape& second,
     BrushTipShape::TangentCircleIndices& indices) {
-  if (second.PerimeterCircles().size() != 2 ||
-      indices.left.second != indices.right.second ||
-      indices.left.first != indices.right.first) {
-    return;
-  }
-
-  const Circle& start = first.PerimeterCircles()[indices.left.first];
-  const Circle& near = second.PerimeterCircles()[indices.left.second];
-  const Circle& far = second.PerimeterCircles()[1 - indices.left.second];
-  float tol = 1e-6 * std::max({std::abs(start.Center().x),
-                               std::abs(start.Center().y),
-                               std::abs(far.Center().x),
-                               std::abs(far.Center().y)});
-  if (std::abs(start.Radius() - near.Radius()) > tol) return;
-
-  Segment axis{start.Center(), far.Center()};
-  std::optional<float> projection = axis.Project(near.Center());
-  if (!projection.has_value() || *projection < 0 || *projection > 1 ||
-      (axis.Lerp(*projection) - near.Center()).Magnitude() > tol) {
-    return;
+  absl::Span<const Circle> first_circles = first.PerimeterCircles();
+  absl::Span<const Circle> second_circles = second.PerimeterCircles();
+  BrushTipShape::TangentCircleIndices original = indices;
+  if (auto [left, right] = std::pair(original.left.first, original.right.first);
+      first_circles.size() == 2 && left == right &&
+      IsOnTheWay(first_circles[1 - left], first_circles[left],
+                 second_circles[original.left.second]) &&
+      IsOnTheWay(first_circles[1 - left], first_circles[left],
+                 second_circles[original.right.second])) {
+    indices.left.first = indices.right.first = 1 - left;
+  }
+  if (auto [left, right] =
+          std::pair(original.left.second, original.right.second);
+      second_circles.size() == 2 && left == right &&
+      IsOnTheWay(second_circles[1 - left], second_circles[left],
+                 first_circles[original.left.first]) &&
+      IsOnTheWay(second_circles[1 - left], second_circles[left],
+                 first_circles[original.right.first])) {
+    indices.left.second = indices.right.second = 1 - left;
   }
-  indices.left.second = indices.right.second = 1 - indices.left.second;
 }
 
 Vec GetForwardDirectionWithFallback(const BrushTipShape& first,
@@ -428,7 +443,7 @@ BrushTipShape::TangentCircleIndices BrushTipShape::GetTangentCircleIndices(
     // the distance traveled.
     TangentCircleIndices indices{std::make_pair(0, second_left.value_or(0)),
                                  std::make_pair(0, second_right.value_or(0))};
-    IncludeFarCircleAlongTravelAxis(first, second, indices);
+    IncludeFarCirclesAlongTravelAxis(first, second, indices);
     return indices;
   }
 
@@ -526,7 +541,7 @@ BrushTipShape::TangentCircleIndices BrushTipShape::GetTangentCircleIndices(
     indices.right.second = index_on_second.value_or(0);
   }
 
-  IncludeFarCircleAlongTravelAxis(first, second, indices);
+  IncludeFarCirclesAlongTravelAxis(first, second, indices);
   return indices;
 }
 
-- 
2.43.0


From 49cf4df0719b572448073e515410e99658dc7429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:42 +0000
Subject: [PATCH 45/47] fix: brush tip shape: tangents collinear with a side of
 the tip made the outline go around the tip

---
 ink/strokes/internal/BUILD.bazel        |   1 +
 ink/strokes/internal/brush_tip_shape.cc | 129 +++++++++++++++++-------
 2 files changed, 95 insertions(+), 35 deletions(-)

diff --git a/ink/strokes/internal/BUILD.bazel b/ink/strokes/internal/BUILD.bazel
index 09b05c6..09ea8f0 100644
--- a/ink/strokes/internal/BUILD.bazel
+++ b/ink/strokes/internal/BUILD.bazel
@@ -266,6 +266,7 @@ cc_library(
         ":extrusion_points",
         "//ink/geometry:affine_transform",
         "//ink/geometry:angle",
+        "//ink/geometry:distance",
         "//ink/geometry:point",
         "//ink/geometry:rect",
         "//ink/geometry:segment",
diff --git a/ink/strokes/internal/brush_tip_shape.cc b/ink/strokes/internal/brush_tip_shape.cc
index 9a867f4..42da9f3 100644
--- a/ink/strokes/internal/brush_tip_shape.cc
+++ b/ink/strokes/internal/brush_tip_shape.cc
@@ -29,6 +29,7 @@
 #include "absl/types/span.h"
 #include "ink/geometry/affine_transform.h"
 #include "ink/geometry/angle.h"
+#include "ink/geometry/distance.h"
 #include "ink/geometry/internal/algorithms.h"
 #include "ink/geometry/internal/circle.h"
 #include "ink/geometry/point.h"
@@ -614,6 +615,52 @@ void AppendRightCircularTurnPoints(
   }
 }
 
+// Returns true if the tangents with the given angles are in the same direction,
+// as far as that can be told with rounding.
+bool AreCollinear(Angle incoming_angle, Angle outgoing_angle) {
+  constexpr Angle kCollinearTol = Angle::Radians(1e-3);
+  return Abs((outgoing_angle - incoming_angle).NormalizedAboutZero()) <
+         kCollinearTol;
+}
+
+// Appends the points connecting two tangents in the same direction that touch
+// different perimeter circles of the middle shape.
+//
+// When both tangents are collinear with a side of the middle shape, each of
+// them may touch either end of that side depending on rounding, so `outgoing`
+// may start on either side of the end of `incoming`.
+void AppendCollinearTangentConnection(const Segment& incoming,
+                                      const Segment& outgoing,
+                                      std::vector<Point>& points) {
+  points.push_back(incoming.end);
+  if (Vec::DotProduct(outgoing.start - incoming.end, incoming.Vector()) > 0) {
+    points.push_back(outgoing.start);
+  }
+}
+
+// Appends the points connecting two tangents that do not intersect.
+//
+// These are the end of `incoming` and the start of `outgoing`, unless the
+// tangents only failed to intersect because of rounding. In that case, adding
+// both points would make the outline go backwards.
+void AppendTangentConnection(const Segment& incoming, const Segment& outgoing,
+                             std::vector<Point>& points) {
+  float tol = 1e-6 * std::max({std::abs(incoming.start.x),
+                               std::abs(incoming.start.y),
+                               std::abs(incoming.end.x),
+                               std::abs(incoming.end.y),
+                               std::abs(outgoing.end.x),
+                               std::abs(outgoing.end.y)});
+  if (Distance(incoming, outgoing.start) <= tol) {
+    points.push_back(outgoing.start);
+  } else if (Distance(outgoing, incoming.end) <= tol) {
+    points.push_back(incoming.end);
+  } else {
+    points.push_back(incoming.end);
+    points.push_back(outgoing.start);
+  }
+}
+
 }  // namespace
 
 void BrushTipShape::AppendTurnExtrusionPoints(
@@ -643,10 +690,26 @@ void BrushTipShape::AppendTurnExtrusionPoints(
     outgoing_angles.right += kFullTurn;
 
   // Left side:
-  if (incoming_tangent_indices.left.second ==
-          outgoing_tangent_indices.left.first ||
-      outgoing_angles.left >=
-          std::min(incoming_angles.right, outgoing_angles.right)) {
+  Segment incoming_left_tangent{
+      start.circles_[incoming_tangent_indices.left.first].GetPoint(
+          incoming_angles.left),
+      middle.circles_[incoming_tangent_indices.left.second].GetPoint(
+          incoming_angles.left)};
+  Segment outgoing_left_tangent{
+      middle.circles_[outgoing_tangent_indices.left.first].GetPoint(
+          outgoing_angles.left),
+      end.circles_[outgoing_tangent_indices.left.second].GetPoint(
+          outgoing_angles.left)};
+  if (incoming_tangent_indices.left.second !=
+          outgoing_tangent_indices.left.first &&
+      AreCollinear(incoming_angles.left, outgoing_angles.left)) {
+    AppendCollinearTangentConnection(incoming_left_tangent,
+                                     outgoing_left_tangent,
+                                     extrusion_points.left);
+  } else if (incoming_tangent_indices.left.second ==
+                 outgoing_tangent_indices.left.first ||
+             outgoing_angles.left >=
+                 std::min(incoming_angles.right, outgoing_angles.right)) {
     // Add arcs connecting perimeter circles.
     absl::InlinedVector<Circle, 5> circles;
     circles.push_back(start.circles_[incoming_tangent_indices.left.first]);
@@ -662,32 +725,38 @@ void BrushTipShape::AppendTurnExtrusionPoints(
                                  extrusion_points.left);
   } else {
     // Try to add the intersection of incoming and outgoing tangents.
-    Segment incoming_tangent{
-        start.circles_[incoming_tangent_indices.left.first].GetPoint(
-            incoming_angles.left),
-        middle.circles_[incoming_tangent_indices.left.second].GetPoint(
-            incoming_angles.left)};
-    Segment outgoing_tangent{
-        middle.circles_[outgoing_tangent_indices.left.first].GetPoint(
-            outgoing_angles.left),
-        end.circles_[outgoing_tangent_indices.left.second].GetPoint(
-            outgoing_angles.left)};
     if (std::optional<Point> intersection =
-            SegmentIntersection(incoming_tangent, outgoing_tangent);
+            SegmentIntersection(incoming_left_tangent, outgoing_left_tangent);
         intersection.has_value()) {
       extrusion_points.left.push_back(*intersection);
     } else {
-      extrusion_points.left.push_back(incoming_tangent.end);
-      extrusion_points.left.push_back(outgoing_tangent.start);
+      AppendTangentConnection(incoming_left_tangent, outgoing_left_tangent,
+                              extrusion_points.left);
     }
   }
 
   // Right side:
-  if (incoming_tangent_indices.right.second ==
-          outgoing_tangent_indices.right.first ||
-      outgoing_angles.right > incoming_angles.right ||
-      (outgoing_angles.left >= outgoing_angles.right &&
-       incoming_angles.right >= outgoing_angles.left)) {
+  Segment incoming_right_tangent{
+      start.circles_[incoming_tangent_indices.right.first].GetPoint(
+          incoming_angles.right),
+      middle.circles_[incoming_tangent_indices.right.second].GetPoint(
+          incoming_angles.right)};
+  Segment outgoing_right_tangent{
+      middle.circles_[outgoing_tangent_indices.right.first].GetPoint(
+          outgoing_angles.right),
+      end.circles_[outgoing_tangent_indices.right.second].GetPoint(
+          outgoing_angles.right)};
+  if (incoming_tangent_indices.right.second !=
+          outgoing_tangent_indices.right.first &&
+      AreCollinear(incoming_angles.right, outgoing_angles.right)) {
+    AppendCollinearTangentConnection(incoming_right_tangent,
+                                     outgoing_right_tangent,
+                                     extrusion_points.right);
+  } else if (incoming_tangent_indices.right.second ==
+                 outgoing_tangent_indices.right.first ||
+             outgoing_angles.right > incoming_angles.right ||
+             (outgoing_angles.left >= outgoing_angles.right &&
+              incoming_angles.right >= outgoing_angles.left)) {
     // Add arcs connecting perimeter circles.
     absl::InlinedVector<Circle, 5> circles;
     circles.push_back(start.circles_[incoming_tangent_indices.right.first]);
@@ -703,23 +772,13 @@ void BrushTipShape::AppendTurnExtrusionPoints(
                                   extrusion_points.right);
   } else {
     // Try to add the intersection of incoming and outgoing tangents.
-    Segment incoming_tangent{
-        start.circles_[incoming_tangent_indices.right.first].GetPoint(
-            incoming_angles.right),
-        middle.circles_[incoming_tangent_indices.right.second].GetPoint(
-            incoming_angles.right)};
-    Segment outgoing_tangent{
-        middle.circles_[outgoing_tangent_indices.right.first].GetPoint(
-            outgoing_angles.right),
-        end.circles_[outgoing_tangent_indices.right.second].GetPoint(
-            outgoing_angles.right)};
     if (std::optional<Point> intersection =
-            SegmentIntersection(incoming_tangent, outgoing_tangent);
+            SegmentIntersection(incoming_right_tangent, outgoing_right_tangent);
         intersection.has_value()) {
       extrusion_points.right.push_back(*intersection);
     } else {
-      extrusion_points.right.push_back(incoming_tangent.end);
-      extrusion_points.right.push_back(outgoing_tangent.start);
+      AppendTangentConnection(incoming_right_tangent, outgoing_right_tangent,
+                              extrusion_points.right);
     }
   }
 }
-- 
2.43.0


From 297fe38acc94f6a163961957484a02803ff5ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:42 +0000
Subject: [PATCH 46/47] fix: extruder: the intersection with an outline of one
 place had no position

---
 .../internal/brush_tip_extruder/directed_partial_outline.cc      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ink/strokes/internal/brush_tip_extruder/directed_partial_outline.cc b/ink/strokes/internal/brush_tip_extruder/directed_partial_outline.cc
index 0a230ec..e89f5af 100644
--- a/ink/strokes/internal/brush_tip_extruder/directed_partial_outline.cc
+++ b/ink/strokes/internal/brush_tip_extruder/directed_partial_outline.cc
@@ -136,6 +136,7 @@ OutlineIntersectionResult FindOutlineIntersection(
         LegacyIntersection(outline_segment, segment);
     if (result.has_value()) {
       OutlineIntersectionResult::SegmentIntersection intersection = {
+          .position = last_position,
           .starting_index = outline.Size() - 1,
           .ending_index = outline.Size() - 1,
           .outline_interpolation_value = result->segment1_interval[0],
-- 
2.43.0


From bee84dfbe2945f74d49a43b721585e0f17b41a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:36 +0000
Subject: [PATCH 47/47] fix: canvas mesh renderer: offsets of unused attributes
 were never initialised

---
 .../skia/common_internal/jni/canvas_mesh_renderer_jni.cc         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc b/ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc
index 63e4162..9aca02d 100644
--- a/ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc
+++ b/ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc
@@ -67,6 +67,7 @@ JNI_METHOD(rendering_android_canvas_internal, CanvasMeshRenderer, void,
   std::array<int, MeshSpecificationData::kMaxAttributes> attribute_types;
   std::array<int, MeshSpecificationData::kMaxAttributes> attribute_offsets;
   attribute_types.fill(-1);
+  attribute_offsets.fill(-1);
   for (int i = 0; i < attributes.Size(); i++) {
     attribute_types[i] = static_cast<int>(attributes[i].type);
     attribute_offsets[i] = attributes[i].offset;
-- 
2.43.0

