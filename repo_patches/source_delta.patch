From 8815d77147661df2d40c5a984a69c018c09d7648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:46 +0000
Subject: [PATCH 01/46] fix: querying or resetting a sample counter must not
 register its id

SamplingStatus::getCount(id) and resetCounter(id) inserted a counter for ids
without a target, after which finished() failed with std::out_of_range.
---
 frackit/sampling/status.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/frackit/sampling/status.hh b/frackit/sampling/status.hh
index f96e3f9..b3e718e 100644
--- a/frackit/sampling/status.hh
+++ b/frackit/sampling/status.hh
@@ -85,7 +85,9 @@ public:
      */
     void resetCounter(const Id& id)
     {
-        count_[id.get()] = 0;
+        auto it = count_.find(id.get());
+        if (it != count_.end())
+            it->second = 0;
     }
 
     /*!
@@ -134,7 +136,10 @@ public:
      * \brief Returns the entity count for the given id.
      */
     std::size_t getCount(const Id& id)
-    { return count_[id.get()]; }
+    {
+        auto it = count_.find(id.get());
+        return it == count_.end() ? 0 : it->second;
+    }
 
     /*!
      * \brief Returns the overall entity count.
-- 
2.43.0


From d844f590134bcc3ab6a2e01e6f1e64a5f527496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:32 +0000
Subject: [PATCH 02/46] fix: SamplingStatus::print must not fail for wide
 figures

The padding was computed with unsigned arithmetic, so that figures wider than
their column (e.g. a progress without any target) raised std::length_error.
---
 frackit/sampling/status.hh | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/frackit/sampling/status.hh b/frackit/sampling/status.hh
index b3e718e..4b7a890 100644
--- a/frackit/sampling/status.hh
+++ b/frackit/sampling/status.hh
@@ -181,12 +181,13 @@ public:
         const auto countString = std::to_string(curCount);
         const auto rejectedCountString = std::to_string(rejectedCount_);
 
-        using std::max;
-        const std::size_t zero = 0;
-        const std::size_t paddingCount    = max(zero, 13 - countString.size());
-        const std::size_t paddingRejected = max(zero, 13 - rejectedCountString.size());
-        const std::size_t paddingRatio    = max(zero, 16 - ratioNumChars);
-        const std::size_t paddingProgess  = max(zero, 8  - progressNumChars);
+        const auto padding = [] (std::size_t width, std::size_t numChars)
+        { return width > numChars ? width - numChars : std::size_t(0); };
+
+        const std::size_t paddingCount    = padding(13, countString.size());
+        const std::size_t paddingRejected = padding(13, rejectedCountString.size());
+        const std::size_t paddingRatio    = padding(16, ratioNumChars);
+        const std::size_t paddingProgess  = padding(8, progressNumChars);
 
         std::cout << "  "      << std::string( paddingCount, ' ')    << countString + ' '
                   << "   |   " << std::string( paddingRejected, ' ') << rejectedCountString + ' '
-- 
2.43.0


From 63e0a1a162a46e18b50ff7afebb2103f2262a82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:10 +0000
Subject: [PATCH 03/46] fix: MultiGeometryEntitySet::addEntity could not be
 instantiated

The pair constructor call did not compile as Id is not implicitly constructible
from an index.
---
 frackit/entitynetwork/multigeometryentityset.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/entitynetwork/multigeometryentityset.hh b/frackit/entitynetwork/multigeometryentityset.hh
index 8c03ed7..452d15a 100644
--- a/frackit/entitynetwork/multigeometryentityset.hh
+++ b/frackit/entitynetwork/multigeometryentityset.hh
@@ -96,7 +96,7 @@ public:
         }
 
         // define a new entity set
-        entityIdVectors.push_back( GeometryVectorIdPair<Entity>({}, id.get()) );
+        entityIdVectors.push_back( GeometryVectorIdPair<Entity>({}, id) );
         entityIdVectors.back().first.push_back(entity);
         entitySetGeometries_[id.get()] = geometryName(entity);
     }
-- 
2.43.0


From ab250dcd811add8e786b29bb712ad73f8c8b9ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:11 +0000
Subject: [PATCH 04/46] fix: collinear segments touching in an end point
 intersect in a point

---
 .../intersection/algorithms/algo_segment_segment.hh  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/frackit/intersection/algorithms/algo_segment_segment.hh b/frackit/intersection/algorithms/algo_segment_segment.hh
index cb8ec48..cb20ee5 100644
--- a/frackit/intersection/algorithms/algo_segment_segment.hh
+++ b/frackit/intersection/algorithms/algo_segment_segment.hh
@@ -84,11 +84,15 @@ intersect_segment_segment(const Segment<ctype, wd>& segment1,
         const bool t1On2 = segment2.contains(t1, eps, false);
         if (s1On2 && t1On2) return ResultType( segment1 );
 
-        if (s2On1 && s1On2) return ResultType( Segment(s2, s1) );
-        if (s2On1 && t1On2) return ResultType( Segment(s2, t1) );
+        // segments may also merely touch each other at a common end point
+        const auto makeOverlap = [eps] (const auto& a, const auto& b)
+        { return a.isEqual(b, eps) ? ResultType( a ) : ResultType( Segment(a, b) ); };
 
-        if (t2On1 && s1On2) return ResultType( Segment(t2, s1) );
-        if (t2On1 && t1On2) return ResultType( Segment(t2, t1) );
+        if (s2On1 && s1On2) return makeOverlap(s2, s1);
+        if (s2On1 && t1On2) return makeOverlap(s2, t1);
+
+        if (t2On1 && s1On2) return makeOverlap(t2, s1);
+        if (t2On1 && t1On2) return makeOverlap(t2, t1);
     }
 
     // Fragment the lines to find the intersection point
-- 
2.43.0


From 6417a494125ee05c330f4f5a5378f5701c666366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:11 +0000
Subject: [PATCH 05/46] fix: Polygon::isConvex must consider all corners

---
 frackit/geometry/polygon.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/geometry/polygon.hh b/frackit/geometry/polygon.hh
index ea9855e..f9ef811 100644
--- a/frackit/geometry/polygon.hh
+++ b/frackit/geometry/polygon.hh
@@ -232,7 +232,7 @@ private:
                                              Vector(edge(0).direction()));
 
         // check if normals around the other edges point in the same direction
-        for (std::size_t i = 1; i < numEdges()-1; ++i)
+        for (std::size_t i = 0; i < numEdges()-1; ++i)
         {
             const auto n = crossProduct(Vector(edge(i).direction()),
                                         Vector(edge(i+1).direction()));
-- 
2.43.0


From 01302cc8f787a2408e64f3b2328b0aff1876039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:11 +0000
Subject: [PATCH 06/46] fix: Disk::contains must use eps as length tolerance

---
 frackit/geometry/disk.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frackit/geometry/disk.hh b/frackit/geometry/disk.hh
index 122a008..328e34b 100644
--- a/frackit/geometry/disk.hh
+++ b/frackit/geometry/disk.hh
@@ -108,7 +108,8 @@ public:
         const auto x = deltaX*Vector(this->majorAxis()); // x-coord in local basis
         const auto y = deltaX*Vector(this->minorAxis()); // y-coord in local basis
 
-        return x*x/(a*a) + y*y/(b*b) <= 1.0 + eps*eps;
+        // account for the tolerance by means of enlarged axes
+        return x*x/((a+eps)*(a+eps)) + y*y/((b+eps)*(b+eps)) <= 1.0;
     }
 
     /*!
-- 
2.43.0


From 128df633c44c536ad96c261d05e7d4897c7f3ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:36 +0000
Subject: [PATCH 07/46] fix: point containment on triangles, quadrilaterals and
 polygons

The area-based queries compared an area mismatch against eps squared,
such that points of a geometry were rejected due to round-off. Also,
concave quadrilaterals were split along an exterior diagonal and the
default overload of the triangle accessed a fourth corner.
---
 frackit/geometry/polygon.hh       | 25 ++++++++++++++---------
 frackit/geometry/quadrilateral.hh | 33 ++++++++++++++++++++-----------
 frackit/geometry/triangle.hh      | 28 ++++++++++++++++----------
 3 files changed, 55 insertions(+), 31 deletions(-)

diff --git a/frackit/geometry/polygon.hh b/frackit/geometry/polygon.hh
index f9ef811..80f0e9e 100644
--- a/frackit/geometry/polygon.hh
+++ b/frackit/geometry/polygon.hh
@@ -203,15 +203,22 @@ private:
             if (!supportingPlane().contains(p, eps))
                 return false;
 
-        // sum up the areas of sub-triangles with the given point
-        ctype otherArea(0.0);
-        for (std::size_t i = 0; i < numCorners()-1; ++i)
-            otherArea += Triangle(corner(i), corner(i+1), p).area();
-        otherArea += Triangle(corner(numCorners()-1), corner(0), p).area();
-
-        // if area is equal to the polygon area, point is on it
-        using std::abs;
-        return abs(area() - otherArea) < eps*eps;
+        // the point must not be located beyond any of the edges
+        for (std::size_t i = 0; i < numEdges(); ++i)
+        {
+            const auto e = edge(i);
+
+            // in-plane vector perpendicular to the edge, pointing inwards
+            Vector inward(e.source(), center());
+            Vector tangential(e.direction());
+            tangential *= inward*tangential;
+            inward = inward - tangential;
+
+            if (inward*Vector(e.source(), p) < -eps*inward.length())
+                return false;
+        }
+
+        return true;
     }
 
     //! returns true if the polygon, represented by its triangulation, is degenerated
diff --git a/frackit/geometry/quadrilateral.hh b/frackit/geometry/quadrilateral.hh
index 74d1ef2..2e95861 100644
--- a/frackit/geometry/quadrilateral.hh
+++ b/frackit/geometry/quadrilateral.hh
@@ -24,6 +24,7 @@
 #ifndef FRACKIT_GEOMETRY_QUADRILATERAL_HH
 #define FRACKIT_GEOMETRY_QUADRILATERAL_HH
 
+#include <algorithm>
 #include <cmath>
 #include <cassert>
 #include <string>
@@ -101,8 +102,9 @@ public:
         assert( supportPlane_.contains(p3, Precision<ctype>::confusion()
                                            *Vector(p0, p3).length()) );
 
-        const auto t1 = Triangle(p0, p1, p3);
-        const auto t2 = Triangle(p0, p3, p2);
+        const auto triangles = triangulation_();
+        const auto& t1 = triangles[0];
+        const auto& t2 = triangles[1];
 
         // compute area
         area_ = t1.area() + t2.area();
@@ -164,16 +166,10 @@ public:
             if (!supportPlane_.contains(p, eps))
                 return false;
 
-        // sum up the areas of sub-triangles with the given point
-        ctype otherArea(0.0);
-        otherArea += Triangle(corners_[0], corners_[1], p).area();
-        otherArea += Triangle(corners_[1], corners_[3], p).area();
-        otherArea += Triangle(corners_[3], corners_[2], p).area();
-        otherArea += Triangle(corners_[2], corners_[0], p).area();
-
-        // if area is equal to the quadrilateral area, point is on it
-        using std::abs;
-        return abs(area() - otherArea) < eps*eps;
+        // the point must be on one of the triangles composing this quadrilateral
+        const auto triangles = triangulation_();
+        return std::any_of(triangles.begin(), triangles.end(),
+                           [&] (const auto& t) { return t.contains(p, eps, false); });
     }
 
     /*!
@@ -197,6 +193,19 @@ public:
     bool isConvex() const { return isConvex_; }
 
 private:
+    //! Split the quadrilateral along the diagonal that lies within it
+    std::array<Triangle, 2> triangulation_() const
+    {
+        const auto& c = corners_;
+        const Vector diagonal(c[0], c[3]);
+        const auto n1 = crossProduct(diagonal, Vector(c[0], c[1]));
+        const auto n2 = crossProduct(diagonal, Vector(c[0], c[2]));
+
+        if (n1*n2 < 0.0)
+            return {{ Triangle(c[0], c[1], c[3]), Triangle(c[0], c[3], c[2]) }};
+        return {{ Triangle(c[1], c[3], c[2]), Triangle(c[1], c[2], c[0]) }};
+    }
+
     //! determines if the polygon is convex or not
     void determineConvexity_()
     {
diff --git a/frackit/geometry/triangle.hh b/frackit/geometry/triangle.hh
index 60684d1..d315842 100644
--- a/frackit/geometry/triangle.hh
+++ b/frackit/geometry/triangle.hh
@@ -148,14 +148,22 @@ public:
             if (!supportingPlane().contains(p, eps))
                 return false;
 
-        // sum up the areas of sub-triangles with the given point
-        ctype otherArea(0.0);
-        otherArea += Triangle<ctype, 3>(corners_[0], corners_[1], p).area();
-        otherArea += Triangle<ctype, 3>(corners_[1], corners_[2], p).area();
-        otherArea += Triangle<ctype, 3>(corners_[2], corners_[0], p).area();
-
-        // if area is equal to the triangle area, point is on it
-        return abs(area() - otherArea) < eps*eps;
+        // the point must not be located beyond any of the edges
+        for (unsigned int i = 0; i < numEdges(); ++i)
+        {
+            const auto e = edge(i);
+
+            // in-plane vector perpendicular to the edge, pointing inwards
+            Vector inward(e.source(), center());
+            Vector tangential(e.direction());
+            tangential *= inward*tangential;
+            inward = inward - tangential;
+
+            if (inward*Vector(e.source(), p) < -eps*inward.length())
+                return false;
+        }
+
+        return true;
     }
 
     /*!
@@ -169,8 +177,8 @@ public:
     bool contains(const Point& p,  bool checkIfOnPlane = true) const
     {
         auto eps = Precision<ctype>::confusion();
-        eps *= Vector(corner(0), corner(3)).length();
-        return contains(p, eps);
+        eps *= Vector(corner(0), corner(1)).length();
+        return contains(p, eps, checkIfOnPlane);
     }
 
 private:
-- 
2.43.0


From aabc7c488d36fd928857055d12e8a24aa8184f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:36 +0000
Subject: [PATCH 08/46] fix: disk intersections must respect the given
 tolerance in point queries

---
 frackit/intersection/algorithms/algo_disk_disk.hh | 4 +---
 frackit/intersection/algorithms/algo_disk_line.hh | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/frackit/intersection/algorithms/algo_disk_disk.hh b/frackit/intersection/algorithms/algo_disk_disk.hh
index 6b762eb..e9a7fa8 100644
--- a/frackit/intersection/algorithms/algo_disk_disk.hh
+++ b/frackit/intersection/algorithms/algo_disk_disk.hh
@@ -53,9 +53,7 @@ intersect_disk_disk(const Disk<ctype>& disk1,
     return intersect_planarGeometry_planarGeometry(disk1,
                                                    disk2,
                                                    charLength,
-                                                   Precision<ctype>::confusion(),
-                                                   Precision<ctype>::confusion(),
-                                                   eps);
+                                                   eps, eps, eps);
 }
 
 } // end namespace IntersectionAlgorithms
diff --git a/frackit/intersection/algorithms/algo_disk_line.hh b/frackit/intersection/algorithms/algo_disk_line.hh
index 2d53530..f86691c 100644
--- a/frackit/intersection/algorithms/algo_disk_line.hh
+++ b/frackit/intersection/algorithms/algo_disk_line.hh
@@ -50,7 +50,7 @@ intersect_disk_line(const Disk<ctype>& disk,
 {
     // characteristic length
     const auto charLength = disk.majorAxisLength();
-    return intersect_planarGeometry_line(disk, line, charLength, Precision<ctype>::confusion(), eps);
+    return intersect_planarGeometry_line(disk, line, charLength, eps, eps);
 }
 
 } // end namespace IntersectionAlgorithms
-- 
2.43.0


From b932982bdf4ab2562f2082c8ebeb29855a9fe6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:36 +0000
Subject: [PATCH 09/46] fix: planar geometries touching each other in a single
 corner or rim point intersect

---
 .../algorithms/algo_planargeom_planargeom.hh           | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/frackit/intersection/algorithms/algo_planargeom_planargeom.hh b/frackit/intersection/algorithms/algo_planargeom_planargeom.hh
index 51eced1..e956364 100644
--- a/frackit/intersection/algorithms/algo_planargeom_planargeom.hh
+++ b/frackit/intersection/algorithms/algo_planargeom_planargeom.hh
@@ -125,6 +125,16 @@ intersect_planarGeometry_planarGeometry(const PlanarGeom1& faceGeom1,
                 return ResultType( p1 );
         }
 
+        // both faces may touch the intersection line in the same point
+        else if (std::holds_alternative<Point<ctype, worldDim>>(is1)
+            && std::holds_alternative<Point<ctype, worldDim>>(is2))
+        {
+            const auto& p1 = std::get<Point<ctype, worldDim>>(is1);
+            const auto& p2 = std::get<Point<ctype, worldDim>>(is2);
+            if (p1.isEqual(p2, eps))
+                return ResultType( p1 );
+        }
+
         // intersection is empty
         return ResultType( EmptyIntersection<worldDim>() );
     }
-- 
2.43.0


From efbece3219fa07f131f33c77a97924357fe5e4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:00 +0000
Subject: [PATCH 10/46] fix: contains() of sphere, cylinder and hollow cylinder
 must use eps as length tolerance

---
 frackit/geometry/cylinder.hh       | 2 +-
 frackit/geometry/hollowcylinder.hh | 6 ++----
 frackit/geometry/sphere.hh         | 2 +-
 3 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/frackit/geometry/cylinder.hh b/frackit/geometry/cylinder.hh
index b4b5eb7..3ddeaa3 100644
--- a/frackit/geometry/cylinder.hh
+++ b/frackit/geometry/cylinder.hh
@@ -170,7 +170,7 @@ public:
         if (!centerSegment().contains(proj, eps))
             return false;
 
-        return Vector(proj, p).squaredLength() <= radius()*radius() + eps*eps;
+        return Vector(proj, p).length() <= radius() + eps;
     }
 
     /*!
diff --git a/frackit/geometry/hollowcylinder.hh b/frackit/geometry/hollowcylinder.hh
index 277d1f2..7501788 100644
--- a/frackit/geometry/hollowcylinder.hh
+++ b/frackit/geometry/hollowcylinder.hh
@@ -199,10 +199,8 @@ public:
         if (!centerSegment().contains(proj, eps))
             return false;
 
-        const auto squaredDist = Vector(proj, p).squaredLength();
-        const auto squaredEps = eps*eps;
-        return squaredDist <= outerRadius()*outerRadius() + squaredEps
-               && squaredDist >= innerRadius()*innerRadius() - squaredEps;
+        const auto dist = Vector(proj, p).length();
+        return dist <= outerRadius() + eps && dist >= innerRadius() - eps;
     }
 
     /*!
diff --git a/frackit/geometry/sphere.hh b/frackit/geometry/sphere.hh
index f85a193..0b3d673 100644
--- a/frackit/geometry/sphere.hh
+++ b/frackit/geometry/sphere.hh
@@ -83,7 +83,7 @@ public:
     bool contains(const Point& p, ctype eps) const
     {
         const auto v = Vector<ctype, 3>(center(), p);
-        return v.squaredLength() - radius()*radius() < eps*eps;
+        return v.length() < radius() + eps;
     }
 
     /*!
-- 
2.43.0


From 038ce74831287e091bd73879c3dcb6a3e1f8fd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 11/46] fix: tolerance of Ellipse::contains is a length, full
 ellipse arcs contain all points of the ellipse

---
 frackit/geometry/ellipse.hh    | 11 +++++++++--
 frackit/geometry/ellipsearc.hh |  5 ++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/frackit/geometry/ellipse.hh b/frackit/geometry/ellipse.hh
index 01a5f06..ab684f9 100644
--- a/frackit/geometry/ellipse.hh
+++ b/frackit/geometry/ellipse.hh
@@ -97,8 +97,11 @@ public:
         const auto x = deltaX*Vector(this->majorAxis()); // x-coord in local basis
         const auto y = deltaX*Vector(this->minorAxis()); // y-coord in local basis
 
+        // compare the (first-order) distance to the ellipse with the tolerance
         using std::abs;
-        return abs(x*x/(a*a) + y*y/(b*b) - 1.0) < eps;
+        const auto f = x*x/(a*a) + y*y/(b*b) - 1.0;
+        const auto gradF = Vector(2.0*x/(a*a), 2.0*y/(b*b), 0.0);
+        return abs(f) < eps*gradF.length();
     }
 
     /*!
@@ -109,7 +112,11 @@ public:
      * \note This overload uses a default epsilon.
      */
     bool contains(const Point& p, bool checkIfOnPlane = true) const
-    { return contains(p, Precision<ctype>::confusion(), checkIfOnPlane); }
+    {
+        auto eps = Precision<ctype>::confusion();
+        eps *= 0.5*(this->majorAxisLength() + this->minorAxisLength());
+        return contains(p, eps, checkIfOnPlane);
+    }
 
     /*!
      * \brief Returns the point on the ellipse for the given parameter
diff --git a/frackit/geometry/ellipsearc.hh b/frackit/geometry/ellipsearc.hh
index 5cada80..e0463bb 100644
--- a/frackit/geometry/ellipsearc.hh
+++ b/frackit/geometry/ellipsearc.hh
@@ -130,9 +130,12 @@ public:
     bool contains(const Point& p, ctype eps, bool checkIfOnEllipse = true) const
     {
         if (checkIfOnEllipse)
-            if (!ParentType::contains(p, eps))
+            if (!ParentType::contains(p, eps*this->majorAxisLength()))
                 return false;
 
+        if (isFullEllipse_)
+            return true;
+
         const auto angle = this->getAngle(p, checkIfOnEllipse);
         if (sourceAngle_ > targetAngle_)
             return angle >= sourceAngle_ - eps || angle <= targetAngle_ + eps;
-- 
2.43.0


From e64dfe1bbdfeffba082f3ded8556b5bb83937472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:44 +0000
Subject: [PATCH 12/46] fix: Vector::isParallel must recognise (anti)parallel
 vectors up to the given angle

---
 frackit/geometry/vector.hh | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/frackit/geometry/vector.hh b/frackit/geometry/vector.hh
index cbecf47..5d87bac 100644
--- a/frackit/geometry/vector.hh
+++ b/frackit/geometry/vector.hh
@@ -126,12 +126,14 @@ public:
             return true;
 
         // we assume non-degenerate vectors!
-        const auto thisNorm = length();
-        const auto otherNorm = other.length();
-
-        using std::acos; using std::abs;
-        const auto angle = abs(acos( (*this)*other/thisNorm/otherNorm ));
-        return angle < angularEps || abs(angularEps - M_PI) < angularEps;
+        // part of the other vector that is orthogonal to this one
+        auto tangential = asImp_();
+        tangential *= (*this)*other/squaredLength();
+        const auto orthogonal = other - tangential;
+
+        using std::asin; using std::min;
+        const auto sinAngle = orthogonal.length()/other.length();
+        return asin(min(ctype(1.0), sinAngle)) < angularEps;
     }
 
     //! Scalar product with another vector
-- 
2.43.0


From 5b6a5bcc9c2a0365640858db9816dcec7d3b8c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:44 +0000
Subject: [PATCH 13/46] fix: Disk::getPoint must scale the distance from the
 center

---
 frackit/geometry/disk.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/geometry/disk.hh b/frackit/geometry/disk.hh
index 328e34b..f56001d 100644
--- a/frackit/geometry/disk.hh
+++ b/frackit/geometry/disk.hh
@@ -135,7 +135,7 @@ public:
         const auto p = boundingEllipse().getPoint(param1);
         Vector d(this->center(), p);
         d *= param2;
-        return p + d;
+        return this->center() + d;
     }
 
     //! Returns the ellipse describing the disk's boundary
-- 
2.43.0


From 99a9d906d95a97f24d0526f97c9555f845c64090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:03 +0000
Subject: [PATCH 14/46] fix: length of ellipses, full ellipse arcs and general
 curves

---
 frackit/magnitude/length.hh | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/frackit/magnitude/length.hh b/frackit/magnitude/length.hh
index ea25240..f17ea80 100644
--- a/frackit/magnitude/length.hh
+++ b/frackit/magnitude/length.hh
@@ -39,6 +39,7 @@
 #include <frackit/occ/geomutilities.hh>
 #include <frackit/occ/breputilities.hh>
 
+#include <frackit/precision/precision.hh>
 #include <frackit/geometry/circle.hh>
 #include <frackit/geometry/ellipse.hh>
 #include <frackit/geometry/ellipsearc.hh>
@@ -65,7 +66,11 @@ ctype computeLength(const Handle(Geom_Curve)& curve)
     const auto uMin = curve->FirstParameter();
     const auto uMax = curve->LastParameter();
     GeomAdaptor_Curve adaptorCurve(curve, uMin, uMax);
-    return GCPnts_AbscissaPoint::Length(adaptorCurve, uMin, uMax);
+
+    // use the estimate obtained without tolerance as length scale
+    const auto estimate = GCPnts_AbscissaPoint::Length(adaptorCurve, uMin, uMax);
+    return GCPnts_AbscissaPoint::Length(adaptorCurve, uMin, uMax,
+                                        Precision<ctype>::confusion()*estimate);
 }
 
 /*!
@@ -103,7 +108,7 @@ ctype computeLength(const Circle<ctype, worldDim>& circle)
  */
 template<class ctype, int worldDim>
 ctype computeLength(const Ellipse<ctype, worldDim>& ellipse)
-{ return M_PI*(ellipse.majorAxisLength() + ellipse.minorAxisLength()); }
+{ return computeLength(OCCUtilities::getGeomHandle(ellipse)); }
 
 /*!
  * \ingroup Magnitude
@@ -113,7 +118,7 @@ template<class ctype>
 ctype computeLength(const EllipseArc<ctype, 3>& arc)
 {
     if (arc.isFullEllipse())
-         return M_PI*(arc.majorAxisLength() + arc.minorAxisLength());
+         return computeLength(arc.supportingEllipse());
     return computeLength(OCCUtilities::getGeomHandle(arc));
 }
 
-- 
2.43.0


From fb0bd53f28c0a84352b9a6e4b11273662d980016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:03 +0000
Subject: [PATCH 15/46] fix: curve handles of full arcs and of arcs on circular
 ellipses

---
 frackit/occ/geomutilities.hh | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/frackit/occ/geomutilities.hh b/frackit/occ/geomutilities.hh
index b7ed8a3..b02799b 100644
--- a/frackit/occ/geomutilities.hh
+++ b/frackit/occ/geomutilities.hh
@@ -34,9 +34,11 @@
 
 // objects from geometric processors package
 #include <gp_Ax2.hxx>
+#include <gp_Circ.hxx>
 #include <gp_Elips.hxx>
 
 // objects from the geometry package
+#include <Geom_Circle.hxx>
 #include <Geom_Ellipse.hxx>
 #include <Geom_Curve.hxx>
 #include <Geom_TrimmedCurve.hxx>
@@ -47,6 +49,7 @@
 #include <BRep_Tool.hxx>
 
 // internal geometry classes
+#include <frackit/precision/precision.hh>
 #include <frackit/geometry/ellipse.hh>
 #include <frackit/geometry/ellipsearc.hh>
 
@@ -65,6 +68,14 @@ namespace OCCUtilities {
         gp_Dir normal = direction(ellipse.normal());
         gp_Dir majorAx = direction(ellipse.majorAxis());
         gp_Pnt center = point(ellipse.center());
+
+        // use circles if possible, as intersection algorithms may
+        // miss solutions for ellipses with identical axis lengths
+        const auto eps = Precision<ctype>::confusion()*ellipse.majorAxisLength();
+        if (ellipse.majorAxisLength() - ellipse.minorAxisLength() < eps)
+            return new Geom_Circle(gp_Circ(gp_Ax2(center, normal, majorAx),
+                                           ellipse.majorAxisLength()));
+
         gp_Elips gpEllipse(gp_Ax2(center, normal, majorAx),
                            ellipse.majorAxisLength(),
                            ellipse.minorAxisLength());
@@ -82,7 +93,8 @@ namespace OCCUtilities {
         const auto geomEllipseHandle = getGeomHandle(ellipse);
         const auto angleSource = ellipseArc.sourceAngleOnEllipse();
         auto angleTarget = ellipseArc.targetAngleOnEllipse();
-        if (angleTarget < angleSource)
+        if (angleTarget < angleSource
+            || (ellipseArc.isFullEllipse() && angleTarget == angleSource))
             angleTarget += 2.0*M_PI;
 
         return new Geom_TrimmedCurve(geomEllipseHandle, angleSource, angleTarget);
-- 
2.43.0


From ffaaa36d9c844d621f6cd7a2f1baece274456d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 16/46] fix: use the given tolerance for points on the boundary
 of faces

---
 frackit/distance/pointonboundary.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/distance/pointonboundary.hh b/frackit/distance/pointonboundary.hh
index cc8a94b..129d65a 100644
--- a/frackit/distance/pointonboundary.hh
+++ b/frackit/distance/pointonboundary.hh
@@ -143,7 +143,7 @@ template<class ctype1, class ctype2>
 bool pointOnGeometryBoundary(const Point<ctype1, 3>& p,
                              const TopoDS_Face& face,
                              ctype2 eps)
-{ return pointOnGeometry(p, BRepTools::OuterWire(face)); }
+{ return pointOnGeometry(p, BRepTools::OuterWire(face), eps); }
 
 /*!
  * \ingroup Distance
-- 
2.43.0


From 779a191af64e1404f04670d55aef80d60bf881de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:24 +0000
Subject: [PATCH 17/46] fix: tangent plane at the touching point of a planar
 geometry and a face

---
 frackit/intersection/intersectionangle.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/intersection/intersectionangle.hh b/frackit/intersection/intersectionangle.hh
index 050791f..dbdd062 100644
--- a/frackit/intersection/intersectionangle.hh
+++ b/frackit/intersection/intersectionangle.hh
@@ -380,7 +380,7 @@ public:
         // construct the tangent plane of the face in the point
         gp_Pnt p;
         gp_Vec baseVec1, baseVec2;
-        geomSurface->D1(projection, paramV, p, baseVec1, baseVec2);
+        geomSurface->D1(paramU, paramV, p, baseVec1, baseVec2);
 
         const auto base1 = OCCUtilities::vector(baseVec1);
         const auto base2 = OCCUtilities::vector(baseVec2);
-- 
2.43.0


From ea3f75e9b3fcc18661066d5bec2d7e3adeb8a930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:24 +0000
Subject: [PATCH 18/46] fix: angle between parallel planes is never NaN

---
 frackit/intersection/intersectionangle.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/frackit/intersection/intersectionangle.hh b/frackit/intersection/intersectionangle.hh
index dbdd062..0c54fe7 100644
--- a/frackit/intersection/intersectionangle.hh
+++ b/frackit/intersection/intersectionangle.hh
@@ -114,7 +114,11 @@ public:
         using std::abs;
         using std::acos;
         using Vector = Vector<ctype, wd>;
-        return acos( abs(Vector(plane1.normal())*Vector(plane2.normal())) );
+        using std::min;
+
+        // the scalar product may slightly exceed one for parallel planes
+        const ctype cosAngle = abs(Vector(plane1.normal())*Vector(plane2.normal()));
+        return acos( min(cosAngle, ctype(1.0)) );
     }
 
     /*!
-- 
2.43.0


From eed3a15355c1e0ed28f1bfc51619bebf9433607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:18 +0000
Subject: [PATCH 19/46] fix: distance of shapes in the interior of solids,
 close to the boundary

---
 frackit/distance/distance.hh | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/frackit/distance/distance.hh b/frackit/distance/distance.hh
index a06a18a..60bd2a8 100644
--- a/frackit/distance/distance.hh
+++ b/frackit/distance/distance.hh
@@ -32,7 +32,9 @@
 #include <stdexcept>
 #include <type_traits>
 
+#include <BRep_Tool.hxx>
 #include <TopoDS_Shape.hxx>
+#include <BRepClass3d_SolidClassifier.hxx>
 #include <BRepExtrema_DistShapeShape.hxx>
 #include <Extrema_ExtAlgo.hxx>
 #include <Extrema_ExtFlag.hxx>
@@ -54,6 +56,23 @@ namespace Impl {
     template<class Geom1, class Geom2>
     using PCT = PromotedType<typename Geom1::ctype,
                              typename Geom2::ctype>;
+
+    // Returns true if any vertex of a shape lies inside a solid of another shape
+    inline bool hasVertexInSolid(const TopoDS_Shape& shape, const TopoDS_Shape& solidShape)
+    {
+        const auto vertices = OCCUtilities::getVertices(shape);
+        for (const auto& solid : OCCUtilities::getSolids(solidShape))
+        {
+            BRepClass3d_SolidClassifier classifier(solid);
+            for (const auto& v : vertices)
+            {
+                classifier.Perform(BRep_Tool::Pnt(v), Precision<double>::confusion());
+                if (classifier.State() == TopAbs_IN)
+                    return true;
+            }
+        }
+        return false;
+    }
 }
 
 /*!
@@ -75,7 +94,16 @@ ctype computeDistance(const TopoDS_Shape& shape1,
     BRepExtrema_DistShapeShape algo(shape1, shape2, deflection, extFlag, extAlgo);
     if (!algo.IsDone())
         throw std::runtime_error("Could not compute BRep distance");
-    return algo.Value();
+
+    // The algorithm detects interior solutions (one shape inside a solid of the other one)
+    // only for vertices that are further away than 1e-3 from the boundary of the solid.
+    const ctype distance = algo.Value();
+    if (distance > 0.0 && distance < 2e-3
+        && extFlag != Extrema_ExtFlag_MAX
+        && (Impl::hasVertexInSolid(shape1, shape2) || Impl::hasVertexInSolid(shape2, shape1)))
+        return 0.0;
+
+    return distance;
 }
 
 /*!
-- 
2.43.0


From 03ef96ccbf9aa31223da07c4ec81cd4a72f85134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:19 +0000
Subject: [PATCH 20/46] fix: edges of face intersections do not depend on the
 order of the faces

---
 .../algorithms/algo_face_face_3d.hh           | 53 ++++++++++---------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/frackit/intersection/algorithms/algo_face_face_3d.hh b/frackit/intersection/algorithms/algo_face_face_3d.hh
index 0dda6db..42d6b6f 100644
--- a/frackit/intersection/algorithms/algo_face_face_3d.hh
+++ b/frackit/intersection/algorithms/algo_face_face_3d.hh
@@ -70,38 +70,39 @@ intersect_face_face_3d(const TopoDS_Face& face1,
     for (auto& f : faceISFaces)
         faceIntersections.emplace_back(std::move(f));
 
+    // lambda to check if an edge has an edge in common with any of the given shapes
+    auto overlapsAny = [eps] (const auto& edge, const auto& shapes)
+    {
+        return std::any_of(shapes.begin(), shapes.end(), [&] (const auto& s)
+        { return edge.IsSame(s) || !OCCUtilities::getEdges(OCCUtilities::intersect(edge, s, eps)).empty(); });
+    };
+
     // find possible edge intersections
-    const auto faceCut = OCCUtilities::cut(face1, face2, eps);
-    const auto faceCutFaces = OCCUtilities::getFaces(faceCut);
-    for (unsigned int i = 0; i < faceCutFaces.size(); ++i)
+    auto findEdges = [&] (const TopoDS_Face& f1, const TopoDS_Face& f2)
     {
-        // edges of the fragments coinciding with the face
-        const auto cutFaceWires = OCCUtilities::getWires(faceCutFaces[i]);
-        for (const auto& wire : cutFaceWires)
+        const auto faceCut = OCCUtilities::cut(f1, f2, eps);
+        const auto faceCutFaces = OCCUtilities::getFaces(faceCut);
+        for (unsigned int i = 0; i < faceCutFaces.size(); ++i)
         {
-            const auto wireIS = OCCUtilities::intersect(wire, face2, eps);
-            const auto edgesOnFace = OCCUtilities::getEdges(wireIS);
-            for (auto& edge : edgesOnFace)
+            // edges of the fragments coinciding with the face
+            const auto cutFaceWires = OCCUtilities::getWires(faceCutFaces[i]);
+            for (const auto& wire : cutFaceWires)
             {
-                // only use this edge if it is not on a previously found face
-                bool isContained = false;
-                for (const auto& faceIS : faceIntersections)
-                {
-                    const auto edgeFaceIS = OCCUtilities::intersect(edge, faceIS, eps);
-                    const auto edgeFaceISEdges = OCCUtilities::getEdges(edgeFaceIS);
-                    if (!edgeFaceISEdges.empty()) { isContained = true; break; }
-                }
-
-                if (isContained)
-                    continue;
-
-                if (std::none_of(edgeIntersections.begin(),
-                                 edgeIntersections.end(),
-                                 [&] (const auto& e) { return edge.IsSame(e); }))
-                    edgeIntersections.emplace_back(edge);
+                const auto wireIS = OCCUtilities::intersect(wire, f2, eps);
+                const auto edgesOnFace = OCCUtilities::getEdges(wireIS);
+
+                // only use edges that are not on previously found faces or edges
+                for (auto& edge : edgesOnFace)
+                    if (!overlapsAny(edge, faceIntersections) && !overlapsAny(edge, edgeIntersections))
+                        edgeIntersections.emplace_back(edge);
             }
         }
-    }
+    };
+
+    // An edge in the interior of a face does not necessarily show up in
+    // the fragments of that face. Thus, consider the fragments of both.
+    findEdges(face1, face2);
+    findEdges(face2, face1);
 
     // Find possible touching points by cutting the wires of the faces
     // with the other faces. We will also find points that are part of previously
-- 
2.43.0


From 3cf4a38ec89a67fc8c3df6f7de07680bfdf96a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 21/46] fix: boundary distance of elliptical intersections on
 quadrilaterals and polygons

---
 .../entitynetwork/constraints_impl/distancetoboundary.hh | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/frackit/entitynetwork/constraints_impl/distancetoboundary.hh b/frackit/entitynetwork/constraints_impl/distancetoboundary.hh
index b9942b1..d10dc54 100644
--- a/frackit/entitynetwork/constraints_impl/distancetoboundary.hh
+++ b/frackit/entitynetwork/constraints_impl/distancetoboundary.hh
@@ -43,6 +43,7 @@
 #include <frackit/geometry/ellipse.hh>
 
 #include <frackit/geometryutilities/name.hh>
+#include <frackit/geometryutilities/isplanar.hh>
 
 namespace Frackit {
 namespace ConstraintImpl {
@@ -135,7 +136,13 @@ namespace ConstraintImpl {
     bool isAdmissibleDistanceToBoundary(const Ellipse<ctype, wd>& ellipse,
                                         const Geo& entity,
                                         ctype2 threshold)
-    { return computeDistanceToBoundary(ellipse, entity) >= threshold; }
+    {
+        // distances to the boundary of planar polygonal entities are available for shapes
+        if constexpr (IsPlanarGeometry<Geo>::value)
+            return computeDistanceToBoundary(OCCUtilities::getShape(ellipse), entity) >= threshold;
+        else
+            return computeDistanceToBoundary(ellipse, entity) >= threshold;
+    }
 
     /*!
      * \brief Overload for edge intersections on disks.
-- 
2.43.0


From d8e5332cb78fd49e16d301649085537c12a6e794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:19 +0000
Subject: [PATCH 22/46] fix: lines touching the rim of disks

---
 .../intersection/algorithms/algo_disk_line.hh | 48 +++++++++++++++++--
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/frackit/intersection/algorithms/algo_disk_line.hh b/frackit/intersection/algorithms/algo_disk_line.hh
index f86691c..5cf2d40 100644
--- a/frackit/intersection/algorithms/algo_disk_line.hh
+++ b/frackit/intersection/algorithms/algo_disk_line.hh
@@ -24,6 +24,8 @@
 #ifndef FRACKIT_DISK_LINE_INTERSECTION_HH
 #define FRACKIT_DISK_LINE_INTERSECTION_HH
 
+#include <algorithm>
+#include <cmath>
 #include <variant>
 #include <stdexcept>
 
@@ -32,6 +34,7 @@
 #include <frackit/precision/precision.hh>
 
 #include <frackit/intersection/intersectiontraits.hh>
+#include "algo_plane_line.hh"
 #include "algo_planargeom_line.hh"
 
 namespace Frackit {
@@ -48,9 +51,48 @@ intersect_disk_line(const Disk<ctype>& disk,
                     const Line<ctype, 3>& line,
                     ctype eps)
 {
-    // characteristic length
-    const auto charLength = disk.majorAxisLength();
-    return intersect_planarGeometry_line(disk, line, charLength, eps, eps);
+    // lines that are not contained in the supporting plane
+    const auto planeLineIS = intersect_plane_line(disk.supportingPlane(), line, eps);
+    if (!std::holds_alternative<Line<ctype, 3>>(planeLineIS))
+    {
+        // characteristic length
+        const auto charLength = disk.majorAxisLength();
+        return intersect_planarGeometry_line(disk, line, charLength, eps, eps);
+    }
+
+    // The boolean operations are not reliable for lines touching the rim of the disk. Thus,
+    // compute the part on the disk from the coordinates scaled with the axes of the disk,
+    // in which the disk is the unit circle and (o + t*d) are the points of the line.
+    using ResultType = Intersection< Disk<ctype>, Line<ctype, 3> >;
+    using Vector = Frackit::Vector<ctype, 3>;
+
+    const auto origin = line.projection(disk.center());
+    const Vector offset(disk.center(), origin);
+    const Vector dir(line.direction());
+    const Vector major(disk.majorAxis());
+    const Vector minor(disk.minorAxis());
+
+    const ctype ox = offset*major/disk.majorAxisLength(), oy = offset*minor/disk.minorAxisLength();
+    const ctype dx = dir*major/disk.majorAxisLength(), dy = dir*minor/disk.minorAxisLength();
+    const ctype dd = dx*dx + dy*dy;
+
+    // the center of the chord and half of its length
+    using std::sqrt; using std::max;
+    const ctype tCenter = -(ox*dx + oy*dy)/dd;
+    const ctype mx = ox + tCenter*dx, my = oy + tCenter*dy;
+    const ctype tHalf = sqrt(max(ctype(0.0), (1.0 - mx*mx - my*my)/dd));
+
+    auto pointOnLine = [&] (ctype t) { auto v = dir; v *= t; return origin + v; };
+    const auto chordCenter = pointOnLine(tCenter);
+    if (!disk.contains(chordCenter, eps, false))
+        return ResultType( EmptyIntersection<3>() );
+
+    // the line merely touches the rim
+    const auto r = sqrt(mx*mx + my*my);
+    if (r > 0.5 && (1.0/r - 1.0)*Vector(disk.center(), chordCenter).length() <= eps)
+        return ResultType( chordCenter );
+
+    return ResultType( Segment<ctype, 3>(pointOnLine(tCenter - tHalf), pointOnLine(tCenter + tHalf)) );
 }
 
 } // end namespace IntersectionAlgorithms
-- 
2.43.0


From c5ca34d00fbce4135f43c9bb175d685f265ce271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:59 +0000
Subject: [PATCH 23/46] fix: planar geometries tangent to cylinder surfaces

---
 .../algorithms/algo_cylsurface_planargeom.hh  | 103 ++++++++++++------
 1 file changed, 72 insertions(+), 31 deletions(-)

diff --git a/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh b/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh
index e2004c8..098ace5 100644
--- a/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh
+++ b/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh
@@ -43,6 +43,9 @@
 
 #include <frackit/intersection/intersectiontraits.hh>
 #include <frackit/intersection/emptyintersection.hh>
+#include "algo_disk_line.hh"
+#include "algo_planargeom_line.hh"
+#include "algo_segment_segment.hh"
 
 namespace Frackit {
 namespace IntersectionAlgorithms {
@@ -93,6 +96,18 @@ namespace Detail {
         return resultArcIndex == 1 ? arc1 : arc2;
     }
 
+    // part of a line on a planar geometry
+    template<class PlanarGeometry, class ctype>
+    Intersection< PlanarGeometry, Line<ctype, 3> >
+    intersectLine(const PlanarGeometry& faceGeom, const Line<ctype, 3>& line, ctype charLength, ctype eps)
+    { return intersect_planarGeometry_line(faceGeom, line, charLength, eps, eps); }
+
+    // part of a line on a disk
+    template<class ctype>
+    Intersection< Disk<ctype>, Line<ctype, 3> >
+    intersectLine(const Disk<ctype>& disk, const Line<ctype, 3>& line, ctype charLength, ctype eps)
+    { return intersect_disk_line(disk, line, eps); }
+
 } // end namespace Detail
 
 /*!
@@ -134,15 +149,64 @@ intersect_cylinderSurface_planarGeometry(const CylinderSurface<ctype>& cylSurfac
     gp_Vec ca(OCCUtilities::direction(cylSurface.direction()));
     const bool faceGeomIsParallel = dn.IsNormal(ca, Precision<ctype>::angular());
     const bool faceGeomIsOrthogonal = dn.IsParallel(ca, Precision<ctype>::angular());
-    const bool resultIsElliptical = faceGeomIsOrthogonal || !faceGeomIsParallel;
 
-    // Depending on the orientation, the results might live on an ellipse.
+    // A plane parallel to the axis has (up to) two straight lines in common with the lateral
+    // surface, or a single one if it is tangent to it. Determine their parts on the geometry.
+    if (faceGeomIsParallel)
+    {
+        const auto& axisSegment = cylSurface.centerSegment();
+        const auto source = faceGeomPlane.projection(axisSegment.source());
+        const auto target = faceGeomPlane.projection(axisSegment.target());
+        const auto radius = cylSurface.radius();
+        const auto distance = Vector(axisSegment.source(), source).length();
+
+        using std::abs; using std::sqrt;
+        std::vector<ctype> offsets;
+        if (abs(distance - radius) <= eps) offsets = {0.0};
+        else if (distance < radius)
+        {
+            const auto offset = sqrt(radius*radius - distance*distance);
+            offsets = {-offset, offset};
+        }
+
+        ResultType result;
+        std::vector<Segment> segments;
+        const Direction dir(crossProduct(Vector(faceGeomPlane.normal()), Vector(cylSurface.direction())));
+        for (const auto offset : offsets)
+        {
+            Vector shift(dir); shift *= offset;
+            const Segment contactSegment(source + shift, target + shift);
+            const auto lineIS = Detail::intersectLine(faceGeom, contactSegment.supportingLine(), charLength, eps);
+
+            if (std::holds_alternative<Point>(lineIS))
+            {
+                if (contactSegment.contains(std::get<Point>(lineIS), eps))
+                    result.emplace_back(std::get<Point>(lineIS));
+            }
+            else if (std::holds_alternative<Segment>(lineIS))
+            {
+                const auto segIS = intersect_segment_segment(contactSegment, std::get<Segment>(lineIS), eps);
+                if (std::holds_alternative<Point>(segIS))
+                    result.emplace_back(std::get<Point>(segIS));
+                else if (std::holds_alternative<Segment>(segIS))
+                    segments.emplace_back(std::get<Segment>(segIS));
+            }
+        }
+
+        // touching points come first
+        for (auto&& s : segments)
+            result.emplace_back(std::move(s));
+
+        return result.empty() ? ResultType({ EmptyIntersection<3>() }) : result;
+    }
+
+    // Otherwise, the results live on an ellipse.
     Ellipse infEllipse;
     if (faceGeomIsOrthogonal)
         infEllipse = Ellipse(faceGeomPlane.projection(cylSurface.centerSegment().source()),
                              cylSurface.base1(), cylSurface.base2(),
                              cylSurface.radius(), cylSurface.radius());
-    else if (!faceGeomIsParallel)
+    else
     {
         Vector cylDir(cylSurface.direction());
         cylDir *= charLength;
@@ -180,19 +244,8 @@ intersect_cylinderSurface_planarGeometry(const CylinderSurface<ctype>& cylSurfac
         if (!wires.empty())
         {
             ResultType result;
-            if (resultIsElliptical)
-            {
-                for (const auto& w : wires)
-                    result.emplace_back(Detail::makeArc(w, infEllipse, eps));
-            }
-            else
-            {
-                for (const auto& w : wires)
-                {
-                    const auto [p1, p2] = Detail::getWireTips<ctype>(w);
-                    result.emplace_back(Segment(p1, p2));
-                }
-            }
+            for (const auto& w : wires)
+                result.emplace_back(Detail::makeArc(w, infEllipse, eps));
             return result;
         }
     }
@@ -234,38 +287,26 @@ intersect_cylinderSurface_planarGeometry(const CylinderSurface<ctype>& cylSurfac
 
     // parse each wire into its basic geometry
     std::vector<EllipseArc> isArcs;
-    std::vector<Segment> isSegments;
     for (const auto& wire : wiresOnCylSurface)
     {
         if (BRep_Tool::IsClosed(wire))
             return ResultType({ infEllipse });
 
-        if (faceGeomIsOrthogonal || !faceGeomIsParallel)
-            isArcs.emplace_back(Detail::makeArc(wire, infEllipse, eps));
-        else
-        {
-            const auto [p1, p2] = Detail::getWireTips<ctype>(wire);
-            isSegments.emplace_back(p1, p2);
-        }
+        isArcs.emplace_back(Detail::makeArc(wire, infEllipse, eps));
     }
 
     // (Maybe) add touching points
     ResultType result;
     for (auto& p : touchCandidates)
     {
-        const auto onSeg = std::any_of(isSegments.begin(),
-                                       isSegments.end(),
-                                       [&p, eps] (const auto& seg) { return seg.contains(p, eps); });
         const auto onArc = std::any_of(isArcs.begin(),
                                        isArcs.end(),
                                        [&p, eps] (const auto& arc) { return arc.contains(p, eps); });
-        if (!onSeg && !onArc)
+        if (!onArc)
             result.emplace_back(std::move(p));
     }
 
-    // add segments and arcs
-    for (auto&& s : isSegments)
-        result.emplace_back(std::move(s));
+    // add arcs
     for (auto&& arc : isArcs)
         result.emplace_back(std::move(arc));
 
-- 
2.43.0


From 01a85cd8365a50379ab073e865a868a99762c1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:29 +0000
Subject: [PATCH 24/46] fix: planes touching the rim of a cylinder surface

---
 .../algorithms/algo_cylsurface_planargeom.hh  | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh b/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh
index 098ace5..19c23a7 100644
--- a/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh
+++ b/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh
@@ -200,6 +200,34 @@ intersect_cylinderSurface_planarGeometry(const CylinderSurface<ctype>& cylSurfac
         return result.empty() ? ResultType({ EmptyIntersection<3>() }) : result;
     }
 
+    // An inclined plane may merely touch the outermost point of a rim
+    if (!faceGeomIsOrthogonal)
+    {
+        const Vector n(faceGeomPlane.normal());
+        Vector parallelPart(cylSurface.direction());
+        parallelPart *= n*parallelPart;
+        Vector toRim{Direction(n - parallelPart)};
+        toRim *= cylSurface.radius();
+
+        // the points of the rims with the smallest/largest distance to the plane
+        const auto& bottom = cylSurface.lowerBoundingCircle().center();
+        const auto& top = cylSurface.upperBoundingCircle().center();
+        std::vector<Point> rimPoints({bottom + toRim, bottom - toRim, top + toRim, top - toRim});
+
+        auto distance = [&] (const Point& p) { return Vector(faceGeomPlane.supportingPoint(), p)*n; };
+        std::sort(rimPoints.begin(), rimPoints.end(),
+                  [&] (const auto& p1, const auto& p2) { return distance(p1) < distance(p2); });
+
+        using std::abs;
+        const bool touchesFirst = abs(distance(rimPoints.front())) <= eps;
+        const bool touchesLast = abs(distance(rimPoints.back())) <= eps;
+        if (touchesFirst || touchesLast)
+        {
+            const auto& p = touchesFirst ? rimPoints.front() : rimPoints.back();
+            return faceGeom.contains(p, eps) ? ResultType({ p }) : ResultType({ EmptyIntersection<3>() });
+        }
+    }
+
     // Otherwise, the results live on an ellipse.
     Ellipse infEllipse;
     if (faceGeomIsOrthogonal)
-- 
2.43.0


From ffe0eba45ddf2c582756c83e9f97853f1947a867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:17 +0000
Subject: [PATCH 25/46] fix: selection of the arc on cylinder surfaces

---
 .../algorithms/algo_cylsurface_planargeom.hh  | 24 +++++++------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh b/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh
index 19c23a7..ca37124 100644
--- a/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh
+++ b/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh
@@ -32,7 +32,6 @@
 #include <TopExp.hxx>
 #include <TopoDS_Vertex.hxx>
 #include <TopoDS_Wire.hxx>
-#include <GeomAPI_ProjectPointOnCurve.hxx>
 
 #include <frackit/occ/breputilities.hh>
 #include <frackit/occ/geomutilities.hh>
@@ -75,25 +74,18 @@ namespace Detail {
 
         const auto [p1, p2] = getWireTips<ctype>(wire);
 
-        // select the arc whose center is on the set of given edges
+        // Select the arc which contains the edges of the wire. Use the center of an edge
+        // to this end, as the centers of the arcs may coincide with vertices of the wire.
         EllipseArc arc1(ellipse, p1, p2);
         EllipseArc arc2(ellipse, p2, p1);
-        const auto center1 = OCCUtilities::point(arc1.getPoint(0.5));
-        const auto center2 = OCCUtilities::point(arc2.getPoint(0.5));
 
-        unsigned int resultArcIndex = 0;
-        for (const auto& edge : OCCUtilities::getEdges(wire))
-        {
-            auto curve = OCCUtilities::getGeomHandle(edge);
-            GeomAPI_ProjectPointOnCurve c1OnCurve(center1, curve);
-            GeomAPI_ProjectPointOnCurve c2OnCurve(center2, curve);
-
-            if (c1OnCurve.NbPoints() > 0 && c1OnCurve.LowerDistance() < eps) { resultArcIndex = 1; break; }
-            if (c2OnCurve.NbPoints() > 0 && c2OnCurve.LowerDistance() < eps) { resultArcIndex = 2; break; }
-        }
+        const auto edges = OCCUtilities::getEdges(wire);
+        assert(!edges.empty());
+        const auto curve = OCCUtilities::getGeomHandle(edges[0]);
+        const auto edgeCenter = OCCUtilities::point(curve->Value(0.5*(curve->FirstParameter()
+                                                                      + curve->LastParameter())));
 
-        assert(resultArcIndex != 0);
-        return resultArcIndex == 1 ? arc1 : arc2;
+        return arc1.contains(edgeCenter, Precision<ctype>::angular(), false) ? arc1 : arc2;
     }
 
     // part of a line on a planar geometry
-- 
2.43.0


From 6d9ba90246e4aca125c48f9d8e4f46002a15cc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 26/46] fix: touching points of faces do not repeat parts of
 found faces and edges

---
 .../algorithms/algo_face_face_3d.hh           | 66 ++++++++++---------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/frackit/intersection/algorithms/algo_face_face_3d.hh b/frackit/intersection/algorithms/algo_face_face_3d.hh
index 42d6b6f..31db48a 100644
--- a/frackit/intersection/algorithms/algo_face_face_3d.hh
+++ b/frackit/intersection/algorithms/algo_face_face_3d.hh
@@ -26,6 +26,7 @@
 #include <algorithm>
 #include <stdexcept>
 
+#include <BRep_Tool.hxx>
 #include <TopoDS_Vertex.hxx>
 #include <TopoDS_Edge.hxx>
 #include <TopoDS_Face.hxx>
@@ -60,7 +61,6 @@ intersect_face_face_3d(const TopoDS_Face& face1,
     using ctype = typename CoordinateTypeTraits<TopoDS_Face>::type;
     using Point = Point<ctype, 3>;
 
-    std::vector<Point> pointIntersections;
     std::vector<TopoDS_Edge> edgeIntersections;
     std::vector<TopoDS_Face> faceIntersections;
 
@@ -110,51 +110,57 @@ intersect_face_face_3d(const TopoDS_Face& face1,
     // of the previously found intersections to be able to check for duplicates.
     // TODO: There must be an easier way to find touching points than this here!
 
-    // lambdas to add the vertices of shapes to a container
-    auto addVertexShape = [] (const auto&v, auto& c) { c.emplace_back(OCCUtilities::point(v)); };
+    // lambda to add the vertices of a shape to a container
     auto addVertices = [&] (const auto& shape, auto&c)
     {
         const auto verts = OCCUtilities::getVertices(shape);
-        std::for_each(verts.begin(), verts.end(), [&] (const auto& v) { addVertexShape(v, c); });
+        std::for_each(verts.begin(), verts.end(), [&] (const auto& v) { c.push_back(v); });
     };
 
-    // collect all intersection points found so far
-    std::vector<Point> curIsPoints;
-    for (const auto& s : faceIntersections) addVertices(s, curIsPoints);
-    for (const auto& s : edgeIntersections) addVertices(s, curIsPoints);
+    // collect all intersection vertices found so far
+    std::vector<TopoDS_Vertex> curIsVertices;
+    for (const auto& s : faceIntersections) addVertices(s, curIsVertices);
+    for (const auto& s : edgeIntersections) addVertices(s, curIsVertices);
 
-    // collect all points of the wires of the two faces and add those that result
+    // collect all vertices of the wires of the two faces and add those that result
     // from cutting the wires with the other face (potential touching points)
     const auto wires1 = OCCUtilities::getWires(face1);
     const auto wires2 = OCCUtilities::getWires(face2);
 
-    std::vector<Point> pointsWireCut1, pointsWireCut2;
-    for (const auto& s : wires1) addVertices(OCCUtilities::cut(s, face2, eps), pointsWireCut1);
-    for (const auto& s : wires2) addVertices(OCCUtilities::cut(s, face1, eps), pointsWireCut2);
+    std::vector<TopoDS_Vertex> verticesWireCut1, verticesWireCut2;
+    for (const auto& s : wires1) addVertices(OCCUtilities::cut(s, face2, eps), verticesWireCut1);
+    for (const auto& s : wires2) addVertices(OCCUtilities::cut(s, face1, eps), verticesWireCut2);
 
-    // find those points that live on the other faces' boundary. These will also
+    // find those vertices that live on the other faces' boundary. These will also
     // include the points that are part of face or edge intersections previously found
     using namespace OCCUtilities;
-    auto isOnShape = [eps] (const auto& p, const auto& shape)
-    { return getVertices(intersect(getShape(p), shape, eps)).size() > 0; };
-
-    std::vector<Point> candidates;
-    for (const auto& p : pointsWireCut1)
-        if ( isOnShape(p, face2) ) candidates.emplace_back( std::move(p) );
-    for (const auto& p : pointsWireCut2)
-        if ( isOnShape(p, face1) ) candidates.emplace_back( std::move(p) );
-
-    // lambda to check if a point is in a container
-    auto hasPoint = [eps] (const auto& p, const auto& c)
-    { return std::any_of(c.begin(), c.end(), [&] (const auto& p2) { return p2.isEqual(p, eps); }); };
+    auto isOnShape = [eps] (const auto& v, const auto& shape)
+    { return getVertices(intersect(v, shape, eps)).size() > 0; };
+    auto isOnAny = [&] (const auto& v, const auto& shapes)
+    { return std::any_of(shapes.begin(), shapes.end(), [&] (const auto& s) { return isOnShape(v, s); }); };
+
+    std::vector<TopoDS_Vertex> candidates;
+    for (const auto& v : verticesWireCut1)
+        if ( isOnShape(v, face2) ) candidates.push_back(v);
+    for (const auto& v : verticesWireCut2)
+        if ( isOnShape(v, face1) ) candidates.push_back(v);
+
+    // lambda to check if a vertex is in a container (within the tolerances of the vertices)
+    auto hasVertex = [eps] (const auto& v, const auto& c)
+    {
+        return std::any_of(c.begin(), c.end(), [&] (const auto& v2)
+        { return point(v2).isEqual(point(v), std::max(eps, BRep_Tool::Tolerance(v) + BRep_Tool::Tolerance(v2))); });
+    };
 
-    // find those candidates that are not in curIsPoints
-    for (auto&& p : candidates)
-        if (!hasPoint(p, curIsPoints) && !hasPoint(p, pointIntersections))
-            pointIntersections.emplace_back( std::move(p) );
+    // find those candidates that are not part of the intersections found so far
+    std::vector<TopoDS_Vertex> pointIntersections;
+    for (const auto& v : candidates)
+        if (!hasVertex(v, curIsVertices) && !hasVertex(v, pointIntersections)
+            && !isOnAny(v, faceIntersections) && !isOnAny(v, edgeIntersections))
+            pointIntersections.push_back(v);
 
     ResultType result;
-    for (auto& p : pointIntersections) result.emplace_back(std::move(p));
+    for (const auto& v : pointIntersections) result.emplace_back(Point(point(v)));
     for (auto& e : edgeIntersections) result.emplace_back(std::move(e));
     for (auto& f : faceIntersections) result.emplace_back(std::move(f));
 
-- 
2.43.0


From 3d97e01c2c5637e85fbf9eadcb6ce399d0880ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 27/46] fix: intersections of entities are not among the
 fragments of a network

---
 frackit/entitynetwork/networkbuilder.hh | 28 +++++++------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 601c8d8..b1bd98a 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -253,20 +253,15 @@ protected:
                 if (!fragmentMap.Find(entityShape, entityIdx))
                     throw std::runtime_error("Could not find entity index");
 
-                // map all fragments to this new index
+                // map all fragments to this new index (the shapes "generated" from an
+                // entity are of lower dimension, i.e. intersections, and are not considered)
                 const bool isDeleted = intersection.IsDeleted(entityShape);
-                const auto& generated = intersection.Generated(entityShape);
                 const auto& modified = intersection.Modified(entityShape);
-                if (!isDeleted && generated.IsEmpty() && modified.IsEmpty())
+                if (!isDeleted && modified.IsEmpty())
                 {
                     newIndexMap.Bind(entityShape, entityIdx);
                     newList.Append(entityShape);
                 }
-                for (const auto& fragment : generated)
-                {
-                    if (!newIndexMap.IsBound(fragment)) newIndexMap.Bind(fragment, entityIdx);
-                    if (!newList.Contains(fragment)) newList.Append(fragment);
-                }
                 for (const auto& fragment : modified)
                 {
                     if (!newIndexMap.IsBound(fragment)) newIndexMap.Bind(fragment, entityIdx);
@@ -346,22 +341,17 @@ protected:
             if (!map.Find(shape, entityIdx))
                 throw std::runtime_error("Could not find original entity index");
 
-            // map all fragments to this new index
+            // map all fragments to this new index (the shapes "generated" from an
+            // entity are of lower dimension, i.e. intersections, and are not considered)
             const bool isDeleted = fragmentAlgo.IsDeleted(shape);
-            const auto& generated = fragmentAlgo.Generated(shape);
             const auto& modified = fragmentAlgo.Modified(shape);
             auto& newList = newFragmentLists[subDomainIdx];
             auto& newMap = newFragmentMaps[subDomainIdx];
-            if (!isDeleted && generated.IsEmpty() && modified.IsEmpty())
+            if (!isDeleted && modified.IsEmpty())
             {
                 newMap.Bind(shape, entityIdx);
                 newList.Append(shape);
             }
-            for (const auto& fragment : generated)
-            {
-                if (!newMap.IsBound(fragment)) newMap.Bind(fragment, entityIdx);
-                if (!newList.Contains(fragment)) newList.Append(fragment);
-            }
             for (const auto& fragment : modified)
             {
                 if (!newMap.IsBound(fragment)) newMap.Bind(fragment, entityIdx);
@@ -385,15 +375,11 @@ protected:
 
             // store the fragments of this sub-domain
             const bool isDeleted = fragmentAlgo.IsDeleted(domainShape);
-            const auto& generated = fragmentAlgo.Generated(domainShape);
             const auto& modified = fragmentAlgo.Modified(domainShape);
 
             auto& sdFragmentList = subDomainFragmentLists_[subDomainIdx];
-            if (!isDeleted && generated.IsEmpty() && modified.IsEmpty())
+            if (!isDeleted && modified.IsEmpty())
                 sdFragmentList.Append(domainShape);
-            for (const auto& fragment : generated)
-                if (!sdFragmentList.Contains(fragment))
-                    sdFragmentList.Append(fragment);
             for (const auto& fragment : modified)
                 if (!sdFragmentList.Contains(fragment))
                     sdFragmentList.Append(fragment);
-- 
2.43.0


From a3bcec6c3412fd67ffa530a1a27e149ecb6eaa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 28/46] fix: networks of a single entity can be built

---
 frackit/entitynetwork/networkbuilder.hh | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index b1bd98a..7b0037b 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -316,6 +316,16 @@ protected:
         for (const auto& domainShape : allDomains)
             allShapes.Append(domainShape);
 
+        // if there is nothing to be cut, keep the shapes as they are
+        if (allShapes.Extent() < 2)
+        {
+            if (networks_.empty() && allShapes.IsEmpty())
+                throw std::runtime_error("Could not perform fragmentation, nothing was added to the builder");
+            for (const auto& domainShape : allDomains)
+                subDomainFragmentLists_[subDomains_.begin()->first].Append(domainShape);
+            return;
+        }
+
         // fragment all shapes
         BRepAlgoAPI_BuilderAlgo fragmentAlgo;
         fragmentAlgo.SetRunParallel(false);
-- 
2.43.0


From aff5241f852d2a3dab9328893357854e9fa2e505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 29/46] fix: every fragment of a network is listed once,
 numbered by primary entity

---
 frackit/entitynetwork/networkbuilder.hh | 41 ++++++++++++++++---------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 7b0037b..b95d48c 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -264,8 +264,10 @@ protected:
                 }
                 for (const auto& fragment : modified)
                 {
-                    if (!newIndexMap.IsBound(fragment)) newIndexMap.Bind(fragment, entityIdx);
-                    if (!newList.Contains(fragment)) newList.Append(fragment);
+                    // fragments might be shared by entities (with different orientation)
+                    if (newIndexMap.IsBound(fragment)) continue;
+                    newIndexMap.Bind(fragment, entityIdx);
+                    newList.Append(fragment);
                 }
             }
 
@@ -364,8 +366,10 @@ protected:
             }
             for (const auto& fragment : modified)
             {
-                if (!newMap.IsBound(fragment)) newMap.Bind(fragment, entityIdx);
-                if (!newList.Contains(fragment)) newList.Append(fragment);
+                // fragments might be shared by entities (with different orientation)
+                if (newMap.IsBound(fragment)) continue;
+                newMap.Bind(fragment, entityIdx);
+                newList.Append(fragment);
             }
         }
 
@@ -572,20 +576,27 @@ public:
         // Then fragment the network entities
         this->fragment_(/*fragmentNetworkOnly*/true);
 
-        // merge all fragments into one list
-        TopTools_ListOfShape fragmentList;
-        for (auto& sdFragmentDataPair : this->networkFragmentLists_)
-            fragmentList.Append(sdFragmentDataPair.second);
-
-        // merge all index maps into one
+        // merge all fragments into one list and all index maps into one. Fragments
+        // that are part of entities of several sub-domains must only appear once.
         std::size_t entityIndexOffset = 0;
+        TopTools_ListOfShape fragmentList;
         TopTools_DataMapOfShapeInteger fragmentIndexMap;
-        for (auto& dataPair : this->networkFragmentMaps_)
+        for (const auto& dataPair : this->networkFragmentLists_)
         {
-            const auto& indexMap = dataPair.second;
-            for (TopTools_DataMapIteratorOfDataMapOfShapeInteger it(indexMap); it.More(); it.Next())
-                fragmentIndexMap.Bind(it.Key(), it.Value() + entityIndexOffset);
-            entityIndexOffset += indexMap.Extent();
+            const auto& indexMap = this->networkFragmentMaps_.at(dataPair.first);
+            for (const auto& fragment : dataPair.second)
+            {
+                if (fragmentIndexMap.IsBound(fragment))
+                    continue;
+                fragmentList.Append(fragment);
+                fragmentIndexMap.Bind(fragment, indexMap.Find(fragment) + entityIndexOffset);
+            }
+
+            // the offset is determined by the number of primary entities, of which
+            // some might have been removed or split into several fragments
+            const auto it = this->networks_.find(dataPair.first);
+            if (it != this->networks_.end())
+                entityIndexOffset += it->second.Extent();
         }
 
         // create the network
-- 
2.43.0


From aec67686e1ea03b2c38499b2070a48cb1c4c3ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:07 +0000
Subject: [PATCH 30/46] fix: entities and fragments shared by several
 sub-domains are listed for each of them

---
 frackit/entitynetwork/networkbuilder.hh | 64 ++++++++++++-------------
 1 file changed, 31 insertions(+), 33 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index b95d48c..a069fe9 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -32,6 +32,7 @@
 
 #include <TopTools_DataMapOfShapeInteger.hxx>
 #include <TopTools_ListOfShape.hxx>
+#include <TopTools_MapOfShape.hxx>
 #include <TopoDS_Shape.hxx>
 
 #include <frackit/common/id.hh>
@@ -286,17 +287,14 @@ protected:
      */
     void fragment_(bool fragmentNetworkOnly)
     {
-        // List with all entities of the network
+        // List with all entities of the network (the same shape might
+        // be part of the networks of more than one sub-domain)
         TopTools_ListOfShape allEntities;
-        TopTools_DataMapOfShapeInteger entityToSubDomainIndex;
+        TopTools_MapOfShape handledEntities;
         for (const auto& fragmentListPair : networkFragmentLists_)
-        {
             for (const auto& fragment : fragmentListPair.second)
-            {
-                allEntities.Append(fragment);
-                entityToSubDomainIndex.Bind(fragment, fragmentListPair.first);
-            }
-        }
+                if (handledEntities.Add(fragment))
+                    allEntities.Append(fragment);
 
         // All sub-domains (omit this if only network is considered)
         TopTools_ListOfShape allDomains;
@@ -340,36 +338,36 @@ protected:
         // map the resulting entities back to the original entity index
         std::unordered_map<std::size_t, TopTools_ListOfShape> newFragmentLists;
         std::unordered_map<std::size_t, TopTools_DataMapOfShapeInteger> newFragmentMaps;
-        for (const auto& shape : allEntities)
+        for (const auto& fragmentListPair : networkFragmentLists_)
         {
-            // get subdomain index
-            int subDomainIdx;
-            if (!entityToSubDomainIndex.Find(shape, subDomainIdx))
-                throw std::runtime_error("Could not find sub-domain index");
-
-            // get original entity index
-            int entityIdx;
+            const auto subDomainIdx = fragmentListPair.first;
             const auto& map = networkFragmentMaps_.at(subDomainIdx);
-            if (!map.Find(shape, entityIdx))
-                throw std::runtime_error("Could not find original entity index");
-
-            // map all fragments to this new index (the shapes "generated" from an
-            // entity are of lower dimension, i.e. intersections, and are not considered)
-            const bool isDeleted = fragmentAlgo.IsDeleted(shape);
-            const auto& modified = fragmentAlgo.Modified(shape);
             auto& newList = newFragmentLists[subDomainIdx];
             auto& newMap = newFragmentMaps[subDomainIdx];
-            if (!isDeleted && modified.IsEmpty())
-            {
-                newMap.Bind(shape, entityIdx);
-                newList.Append(shape);
-            }
-            for (const auto& fragment : modified)
+
+            for (const auto& shape : fragmentListPair.second)
             {
-                // fragments might be shared by entities (with different orientation)
-                if (newMap.IsBound(fragment)) continue;
-                newMap.Bind(fragment, entityIdx);
-                newList.Append(fragment);
+                // get original entity index
+                int entityIdx;
+                if (!map.Find(shape, entityIdx))
+                    throw std::runtime_error("Could not find original entity index");
+
+                // map all fragments to this new index (the shapes "generated" from an
+                // entity are of lower dimension, i.e. intersections, and are not considered)
+                const bool isDeleted = fragmentAlgo.IsDeleted(shape);
+                const auto& modified = fragmentAlgo.Modified(shape);
+                if (!isDeleted && modified.IsEmpty() && !newMap.IsBound(shape))
+                {
+                    newMap.Bind(shape, entityIdx);
+                    newList.Append(shape);
+                }
+                for (const auto& fragment : modified)
+                {
+                    // fragments might be shared by entities (with different orientation)
+                    if (newMap.IsBound(fragment)) continue;
+                    newMap.Bind(fragment, entityIdx);
+                    newList.Append(fragment);
+                }
             }
         }
 
-- 
2.43.0


From 641ca6b9cc01c9bbc2c789c7ad2bc687790ef1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:48 +0000
Subject: [PATCH 31/46] fix: entities of different sub-domains are written to
 different groups

---
 frackit/io/brepwriter.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/frackit/io/brepwriter.hh b/frackit/io/brepwriter.hh
index 8d097c2..735b7c1 100644
--- a/frackit/io/brepwriter.hh
+++ b/frackit/io/brepwriter.hh
@@ -136,14 +136,16 @@ private:
             // Therefore, we add the offset in order to ensure that we don't add
             // entities from another network to the same primary entity index
             const auto& map = network.subDomainEntityFragmentsIndexMap(id);
+            std::size_t maxEntityIndex = 0;
             for (TopTools_DataMapIteratorOfDataMapOfShapeInteger it(map); it.More(); it.Next())
             {
                 allEntities_.Append(it.Key());
                 allEntitiesIndexMap_.Bind(it.Key(), it.Value() + subNetworkOffset);
+                maxEntityIndex = std::max(maxEntityIndex, std::size_t(it.Value()));
             }
 
-            // the next sub-domain
-            subNetworkOffset += map.Extent();
+            // the next sub-domain (some of the entities might not have any fragments)
+            subNetworkOffset += maxEntityIndex;
         }
     }
 
-- 
2.43.0


From e2bbf7ba3aeaf96032080b3783b4ea76927815da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:06 +0000
Subject: [PATCH 32/46] fix: intersection edges are found independent of their
 orientation

---
 frackit/io/brepwriter.hh | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/frackit/io/brepwriter.hh b/frackit/io/brepwriter.hh
index 735b7c1..21867c6 100644
--- a/frackit/io/brepwriter.hh
+++ b/frackit/io/brepwriter.hh
@@ -24,6 +24,7 @@
 #ifndef FRACKIT_BREP_WRITER_HH
 #define FRACKIT_BREP_WRITER_HH
 
+#include <algorithm>
 #include <string>
 #include <stdexcept>
 #include <unordered_map>
@@ -183,7 +184,7 @@ private:
                 std::vector<std::size_t> handled;
                 for (unsigned int eIdx = 0; eIdx < edges.size(); ++eIdx)
                     for (const auto& isList : entityIntersections_)
-                        if (isList.Contains(edges[eIdx]))
+                        if (containsSame_(isList, edges[eIdx]))
                             handled.push_back(eIdx);
 
                 if (handled.size() != edges.size())
@@ -197,6 +198,15 @@ private:
         }
     }
 
+    /*!
+     * \brief Returns true if a list contains a shape, independent of its orientation.
+     */
+    static bool containsSame_(const TopTools_ListOfShape& list, const TopoDS_Shape& shape)
+    {
+        return std::any_of(list.begin(), list.end(),
+                           [&shape] (const auto& s) { return s.IsSame(shape); });
+    }
+
     /*!
      * \brief Fill the sub-shape maps with all shapes that describe the network.
      * \note This overload is for contained entity networks.
@@ -323,7 +333,7 @@ private:
 
                 // start from index 1 in the map
                 for (std::size_t isIdx = 0; isIdx < entityIntersections_.size(); ++isIdx)
-                    if (entityIntersections_[isIdx].Contains(edge))
+                    if (containsSame_(entityIntersections_[isIdx], edge))
                         entityIntersectionsToFragmentsMap_[isIdx+1].push_back(curEntityIdx);
 
                 addVertices_(edgeExp.Current());
-- 
2.43.0


From 2f23bf834255630e5304674401f28d9bddb91a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:47 +0000
Subject: [PATCH 33/46] fix: the default tolerance of network builders follows
 the input

---
 frackit/entitynetwork/networkbuilder.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index a069fe9..26f51b9 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -403,8 +403,13 @@ protected:
      */
     ctype getEpsilon_()
     {
+        // the default depends on the current input
         if (!epsilonIsSet_)
+        {
             setDefaultEpsilon();
+            epsilonIsSet_ = false;
+        }
+
         return eps_;
     }
 
-- 
2.43.0


From 4721a297bc8de7985f55af11d95faca523c08b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:47 +0000
Subject: [PATCH 34/46] fix: building a network leaves the inserted shapes as
 they are

---
 frackit/entitynetwork/networkbuilder.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 26f51b9..3f8af44 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -240,6 +240,7 @@ protected:
             intersection.SetArguments(network);
             intersection.SetTools(domainShapeList);
             intersection.SetRunParallel(false);
+            intersection.SetNonDestructive(true);
             intersection.SetFuzzyValue(getEpsilon_());
             intersection.Build();
             if(!intersection.IsDone())
@@ -329,6 +330,7 @@ protected:
         // fragment all shapes
         BRepAlgoAPI_BuilderAlgo fragmentAlgo;
         fragmentAlgo.SetRunParallel(false);
+        fragmentAlgo.SetNonDestructive(true);
         fragmentAlgo.SetArguments(allShapes);
         fragmentAlgo.SetFuzzyValue(getEpsilon_());
         fragmentAlgo.Build();
-- 
2.43.0


From a5ac54b43cec91dfa2e4a21d114fb36ad1b576d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 35/46] fix: the deprecated quadrilateral sampler redraws
 inadmissible edge lengths

---
 frackit/sampling/quadrilateralsampler.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frackit/sampling/quadrilateralsampler.hh b/frackit/sampling/quadrilateralsampler.hh
index 008a6c0..026adbb 100644
--- a/frackit/sampling/quadrilateralsampler.hh
+++ b/frackit/sampling/quadrilateralsampler.hh
@@ -252,10 +252,10 @@ public:
         rotate(axes[0], Direction(axes[1]), dip);
 
         // sample edge lengths until all are admissible
-        auto dx1 = p_edge_(generator_); while (dx1 < minEdgeLength_) p_edge_(generator_);
-        auto dx2 = p_edge_(generator_); while (dx2 < minEdgeLength_) p_edge_(generator_);
-        auto dy1 = p_edge_(generator_); while (dy1 < minEdgeLength_) p_edge_(generator_);
-        auto dy2 = p_edge_(generator_); while (dy2 < minEdgeLength_) p_edge_(generator_);
+        auto dx1 = p_edge_(generator_); while (dx1 < minEdgeLength_) dx1 = p_edge_(generator_);
+        auto dx2 = p_edge_(generator_); while (dx2 < minEdgeLength_) dx2 = p_edge_(generator_);
+        auto dy1 = p_edge_(generator_); while (dy1 < minEdgeLength_) dy1 = p_edge_(generator_);
+        auto dy2 = p_edge_(generator_); while (dy2 < minEdgeLength_) dy2 = p_edge_(generator_);
 
         auto dxVec1 = axes[0]; dxVec1 *= dx1/2.0;
         auto dxVec2 = axes[0]; dxVec2 *= dx2/2.0;
-- 
2.43.0


From 77212e3e1863468e223f7d02034536aadb402f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 36/46] fix: the polygon sampler accepts positive edge lengths
 only

---
 frackit/sampling/polygonsampler.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/frackit/sampling/polygonsampler.hh b/frackit/sampling/polygonsampler.hh
index c726dc5..ec3162b 100644
--- a/frackit/sampling/polygonsampler.hh
+++ b/frackit/sampling/polygonsampler.hh
@@ -249,15 +249,15 @@ public:
         auto dipLength = p_dip_length_(generator_);
 
         int countStrike = 0;
-        while (strikeLength < 0.0 && countStrike < 100)
+        while (strikeLength <= 0.0 && countStrike < 100)
         { strikeLength = p_strike_length_(generator_); countStrike++; }
         if (countStrike == 100)
             throw std::runtime_error("Could not sample positive strike length in 100 tries");
 
         int countDip = 0;
-        while (dipLength < 0.0 && countDip < 100)
+        while (dipLength <= 0.0 && countDip < 100)
         { dipLength = p_dip_length_(generator_); countDip++; }
-        if (countStrike == 100)
+        if (countDip == 100)
             throw std::runtime_error("Could not sample positive dip length in 100 tries");
 
         std::vector<Vector> edgeVectors;
-- 
2.43.0


From 4c280b0fc09667a8b321b525b469514e93c936b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:44 +0000
Subject: [PATCH 37/46] fix: the Python distance to boundary measures the
 distance to the boundary

---
 frackit/python/geometry/distancetoboundary.hh | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/frackit/python/geometry/distancetoboundary.hh b/frackit/python/geometry/distancetoboundary.hh
index d17517f..4e73a2b 100644
--- a/frackit/python/geometry/distancetoboundary.hh
+++ b/frackit/python/geometry/distancetoboundary.hh
@@ -19,6 +19,11 @@
 #ifndef FRACKIT_PYTHON_GEOMETRY_DISTANCE_TO_BOUNDARY_HH
 #define FRACKIT_PYTHON_GEOMETRY_DISTANCE_TO_BOUNDARY_HH
 
+#include <algorithm>
+#include <type_traits>
+
+#include <BRepClass3d.hxx>
+
 #include <pybind11/pybind11.h>
 
 #include <frackit/geometry/point.hh>
@@ -39,7 +44,19 @@ namespace Detail {
 
 template<class Geo1, class Geo2, class ctype>
 ctype computeDistanceToBoundary(const Geo1& geo1, const Geo2& geo2)
-{ return Frackit::computeDistance(getUnwrappedShape(geo1), getUnwrappedShape(geo2)); }
+{
+    const auto& g1 = getUnwrappedShape(geo1);
+    const auto& g2 = getUnwrappedShape(geo2);
+
+    // the overloads of the library for these types do not accept shapes
+    if constexpr (std::is_same_v<Geo2, Frackit::CylinderSurface<ctype>>)
+        return std::min(Frackit::computeDistance(g1, OCCUtilities::getShape(g2.lowerBoundingCircle())),
+                        Frackit::computeDistance(g1, OCCUtilities::getShape(g2.upperBoundingCircle())));
+    else if constexpr (std::is_same_v<Geo2, Frackit::Python::SolidWrapper>)
+        return Frackit::computeDistance(g1, BRepClass3d::OuterShell(g2));
+    else
+        return Frackit::computeDistanceToBoundary(g1, g2);
+}
 
 } // end namespace Detail
 
-- 
2.43.0


From 6b6650601ab872099165d09b6daeced49fb671fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:44 +0000
Subject: [PATCH 38/46] fix: Python accessors of elliptical geometries return
 values, not references into the geometry

---
 frackit/python/geometry/ellipticalgeometry.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frackit/python/geometry/ellipticalgeometry.hh b/frackit/python/geometry/ellipticalgeometry.hh
index 189ab3f..75aa6ec 100644
--- a/frackit/python/geometry/ellipticalgeometry.hh
+++ b/frackit/python/geometry/ellipticalgeometry.hh
@@ -46,10 +46,10 @@ namespace Detail {
                 "center"_a, "majorAxis"_a, "minorAxis"_a, "majorAxisLength"_a, "minorAxisLength"_a);
 
         // member functions
-        cls.def("majorAxis", &EllipticalGeometry::majorAxis, py::return_value_policy::reference_internal, "returns the major axis");
-        cls.def("minorAxis", &EllipticalGeometry::minorAxis, py::return_value_policy::reference_internal, "returns the minor axis");
-        cls.def("normal", &EllipticalGeometry::normal, py::return_value_policy::reference_internal, "returns the normal of the supporting plane");
-        cls.def("center", &EllipticalGeometry::center, py::return_value_policy::reference_internal, "returns the center point");
+        cls.def("majorAxis", &EllipticalGeometry::majorAxis, "returns the major axis");
+        cls.def("minorAxis", &EllipticalGeometry::minorAxis, "returns the minor axis");
+        cls.def("normal", &EllipticalGeometry::normal, "returns the normal of the supporting plane");
+        cls.def("center", &EllipticalGeometry::center, "returns the center point");
 
         cls.def("majorAxisLength", &EllipticalGeometry::majorAxisLength, "returns the major axis length");
         cls.def("minorAxisLength", &EllipticalGeometry::minorAxisLength, "returns the minor axis length");
-- 
2.43.0


From b038108375e008fc7afaab2c45a3b7f101d85e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:44 +0000
Subject: [PATCH 39/46] fix: Python overloads for ellipse arcs were shadowed by
 those for ellipses

---
 frackit/python/geometry/getboundingbox.hh    | 3 ++-
 frackit/python/geometry/magnitude.hh         | 3 ++-
 frackit/python/occutilities/breputilities.hh | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/frackit/python/geometry/getboundingbox.hh b/frackit/python/geometry/getboundingbox.hh
index d149a48..b49f77c 100644
--- a/frackit/python/geometry/getboundingbox.hh
+++ b/frackit/python/geometry/getboundingbox.hh
@@ -70,8 +70,9 @@ void registerGetBoundingBox(py::module& module)
     Detail::registerGetBoundingBox<Sphere<ctype>>(module, "sphere.");
 
     Detail::registerGetBoundingBox<Circle<ctype, 3>>(module, "circle in 3d space.");
-    Detail::registerGetBoundingBox<Ellipse<ctype, 3>>(module, "ellipse in 3d space.");
+    // an arc is also an ellipse, thus, it has to be registered first
     Detail::registerGetBoundingBox<EllipseArc<ctype, 3>>(module, "ellipse arc in 3d space.");
+    Detail::registerGetBoundingBox<Ellipse<ctype, 3>>(module, "ellipse in 3d space.");
     Detail::registerGetBoundingBox<Polygon<ctype, 3>>(module, "polygon in 3d space.");
     Detail::registerGetBoundingBox<Quadrilateral<ctype, 3>>(module, "quadrilateral in 3d space.");
     Detail::registerGetBoundingBox<Segment<ctype, 3>>(module, "segment in 3d space.");
diff --git a/frackit/python/geometry/magnitude.hh b/frackit/python/geometry/magnitude.hh
index e3c536f..fe4c53e 100644
--- a/frackit/python/geometry/magnitude.hh
+++ b/frackit/python/geometry/magnitude.hh
@@ -86,8 +86,9 @@ void registerMagnitude(py::module& module)
     Detail::registerMagnitude< Vector<ctype, 3> >(module);
     Detail::registerMagnitude< Segment<ctype, 3> >(module);
     Detail::registerMagnitude< Circle<ctype, 3> >(module);
-    Detail::registerMagnitude< Ellipse<ctype, 3> >(module);
+    // an arc is also an ellipse, thus, it has to be registered first
     Detail::registerMagnitude< EllipseArc<ctype, 3> >(module);
+    Detail::registerMagnitude< Ellipse<ctype, 3> >(module);
     Detail::registerMagnitude< Disk<ctype> >(module);
     Detail::registerMagnitude< Triangle<ctype, 3> >(module);
     Detail::registerMagnitude< Quadrilateral<ctype, 3> >(module);
diff --git a/frackit/python/occutilities/breputilities.hh b/frackit/python/occutilities/breputilities.hh
index 12c3f05..8199648 100644
--- a/frackit/python/occutilities/breputilities.hh
+++ b/frackit/python/occutilities/breputilities.hh
@@ -326,8 +326,9 @@ void registerBRepUtilities(pybind11::module& module)
 
     // register geometry to shape conversions
     module.def("getShape", &OCCUtilities::getShape<Circle<ctype, 3>>, "Returns the OCC BRep of a 3d circle");
-    module.def("getShape", &OCCUtilities::getShape<Ellipse<ctype, 3>>, "Returns the OCC BRep of a 3d ellipse");
+    // an arc is also an ellipse, thus, it has to be registered first
     module.def("getShape", &OCCUtilities::getShape<EllipseArc<ctype, 3>>, "Returns the OCC BRep of a 3d ellipse arc");
+    module.def("getShape", &OCCUtilities::getShape<Ellipse<ctype, 3>>, "Returns the OCC BRep of a 3d ellipse");
     module.def("getShape", &OCCUtilities::getShape<Quadrilateral<ctype, 3>>, "Returns the OCC BRep of a 3d quadrilateral");
     module.def("getShape", &OCCUtilities::getShape<Polygon<ctype, 3>>, "Returns the OCC BRep of a 3d polygon");
     module.def("getShape", &OCCUtilities::getShape<Disk<ctype>>, "Returns the OCC BRep of a disk");
-- 
2.43.0


From f934112d79abb210eaa3a90ef15d48d080a0b972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:44 +0000
Subject: [PATCH 40/46] fix: Python constraints on lists and the constraints
 matrix used the wrong counterparts

---
 python/frackit/entitynetwork/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/frackit/entitynetwork/__init__.py b/python/frackit/entitynetwork/__init__.py
index 50ebc20..290f4c6 100644
--- a/python/frackit/entitynetwork/__init__.py
+++ b/python/frackit/entitynetwork/__init__.py
@@ -16,7 +16,7 @@ class EntityNetworkConstraints(_entitynetwork._EntityNetworkConstraints):
         isListB = isinstance(b, list)
 
         def evalList(theList, geo):
-            return all( super(EntityNetworkConstraints, self).evaluate(item, b) for item in theList )
+            return all( super(EntityNetworkConstraints, self).evaluate(item, geo) for item in theList )
 
         if isListA and not isListB:
             return evalList(a, b)
@@ -72,7 +72,7 @@ class EntityNetworkConstraintsMatrix:
         if self.constraintsMatrix.get(id) == None:
             return True
 
-        for otherSetId in self.constraintsMatrix:
+        for otherSetId in self.constraintsMatrix.get(id):
             entitySet = entitySets.get(otherSetId)
 
             # set is empty, skip rest
-- 
2.43.0


From c323c501d7f76e97a087c8c4354df93b69af4756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:44 +0000
Subject: [PATCH 41/46] fix: Python point samplers for cylinders draw the
 squared radius from squared bounds

---
 python/frackit/sampling/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/frackit/sampling/__init__.py b/python/frackit/sampling/__init__.py
index 907b894..afe6ee4 100644
--- a/python/frackit/sampling/__init__.py
+++ b/python/frackit/sampling/__init__.py
@@ -121,7 +121,7 @@ def makePointSampler(geometry,
     # cylinder point sampler
     if geometry.name() == "Cylinder":
         import math
-        samplerR2  = samplerCreatorBase1(0.0, geometry.radius())
+        samplerR2  = samplerCreatorBase1(0.0, geometry.radius()**2)
         samplerPhi = samplerCreatorBase2(0.0, 2.0*math.pi)
         samplerZ   = samplerCreatorBase3(0.0, geometry.height())
         return CylinderPointSampler(geometry, samplerR2, samplerPhi, samplerZ)
@@ -129,7 +129,7 @@ def makePointSampler(geometry,
     # hollow cylinder point sampler
     if geometry.name() == "HollowCylinder":
         import math
-        samplerR2  = samplerCreatorBase1(geometry.innerRadius(), geometry.outerRadius())
+        samplerR2  = samplerCreatorBase1(geometry.innerRadius()**2, geometry.outerRadius()**2)
         samplerPhi = samplerCreatorBase2(0.0, 2.0*math.pi)
         samplerZ   = samplerCreatorBase3(0.0, geometry.height())
         return CylinderPointSampler(geometry.fullCylinder(), samplerR2, samplerPhi, samplerZ)
-- 
2.43.0


From 0821c9e5619f350a85092cacede065b1f52507dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:44 +0000
Subject: [PATCH 42/46] fix: constructing a Python quadrilateral sampler does
 not draw from its distributions

---
 python/frackit/sampling/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/frackit/sampling/__init__.py b/python/frackit/sampling/__init__.py
index afe6ee4..9cf58c9 100644
--- a/python/frackit/sampling/__init__.py
+++ b/python/frackit/sampling/__init__.py
@@ -386,8 +386,7 @@ class QuadrilateralSampler:
 
         # if the last argument is not callable, we assume one is using the deprecated
         # way of construction and algorithm, where the last argument is the minumum edge length
-        try: tmp = dipLengthSampler()
-        except:
+        if not callable(dipLengthSampler):
             import warnings
             warnings.warn("Please use new quadrilateral sampler implementation", DeprecationWarning, stacklevel=2)
             self.pointSampler = pointSampler
-- 
2.43.0


From e91255448bc9a81392057b38875b59f855c69f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:44 +0000
Subject: [PATCH 43/46] fix: the Python polygon sampler checks its draws as
 documented and sorts edges at any scale

---
 python/frackit/sampling/__init__.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/python/frackit/sampling/__init__.py b/python/frackit/sampling/__init__.py
index 9cf58c9..c0e08bf 100644
--- a/python/frackit/sampling/__init__.py
+++ b/python/frackit/sampling/__init__.py
@@ -231,6 +231,7 @@ class PolygonSampler:
         numCorners = 0
         while numCorners < 3 and count < 100:
             numCorners = self.numCornersSampler()
+            count += 1
 
         if count == 100:
             raise RuntimeError("Did not obtain more than 3 corners after sampling " \
@@ -300,13 +301,13 @@ class PolygonSampler:
         dipLength = self.dipLengthSampler()
 
         countStrike = 0;
-        while strikeLength < 0.0 and countStrike < 100:
+        while strikeLength <= 0.0 and countStrike < 100:
             strikeLength = self.strikeLengthSampler()
             countStrike += 1
         if countStrike == 100: raise RuntimeError("Could not sample strike dimension > 0.0 in 100 tries")
 
         countDip = 0;
-        while strikeLength < 0.0 and countDip < 100:
+        while dipLength <= 0.0 and countDip < 100:
             dipLength = self.dipLengthSampler()
             countDip += 1
         if countDip == 100: raise RuntimeError("Could not sample dip dimension > 0.0 in 100 tries")
@@ -318,11 +319,8 @@ class PolygonSampler:
         # returns the angle w.r.t the standard x-y basis of an edge vector
         import math
         def getAngle(v):
-            if abs(v.y()) < 1e-6: return 0.0 if v.x() > 0.0 else math.pi
-            if abs(v.x()) < 1e-6: return math.pi/2.0 if v.y() > 0.0 else 3.0*math.pi/2.0
-
             angle = math.atan2(v.y(), v.x())
-            return 2.0*math.pi + angle if v.y() < 0.0 else angle
+            return 2.0*math.pi + angle if angle < 0.0 else angle
 
         # sort edges by angle
         edgeVectors.sort(key=lambda v: getAngle(v))
-- 
2.43.0


From 403e59dbff01747b1be032b6009a241fe6ba4335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:11 +0000
Subject: [PATCH 44/46] fix: triangulation of quadrilaterals with three
 collinear corners

---
 frackit/geometry/quadrilateral.hh | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/frackit/geometry/quadrilateral.hh b/frackit/geometry/quadrilateral.hh
index 2e95861..f0ef732 100644
--- a/frackit/geometry/quadrilateral.hh
+++ b/frackit/geometry/quadrilateral.hh
@@ -193,15 +193,18 @@ public:
     bool isConvex() const { return isConvex_; }
 
 private:
-    //! Split the quadrilateral along the diagonal that lies within it
+    //! Split the quadrilateral along a diagonal that lies within it. The other
+    //! two corners are on opposite sides of it, and as far from it as possible
+    //! such that none of the triangles degenerates if three corners are collinear.
     std::array<Triangle, 2> triangulation_() const
     {
         const auto& c = corners_;
-        const Vector diagonal(c[0], c[3]);
-        const auto n1 = crossProduct(diagonal, Vector(c[0], c[1]));
-        const auto n2 = crossProduct(diagonal, Vector(c[0], c[2]));
+        const Vector diagonal1(c[0], c[3]);
+        const Vector diagonal2(c[1], c[2]);
+        const auto sides1 = crossProduct(diagonal1, Vector(c[0], c[1]))*crossProduct(diagonal1, Vector(c[0], c[2]));
+        const auto sides2 = crossProduct(diagonal2, Vector(c[1], c[0]))*crossProduct(diagonal2, Vector(c[1], c[3]));
 
-        if (n1*n2 < 0.0)
+        if (sides1 <= sides2)
             return {{ Triangle(c[0], c[1], c[3]), Triangle(c[0], c[3], c[2]) }};
         return {{ Triangle(c[1], c[3], c[2]), Triangle(c[1], c[2], c[0]) }};
     }
-- 
2.43.0


From bfd2971c6d94e11a9a7a55d1e03a1d418a6870d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:03 +0000
Subject: [PATCH 45/46] fix: intersections of disks with planar geometries use
 the disk-line algorithm for the common line

---
 .../algorithms/algo_planargeom_planargeom.hh    | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/frackit/intersection/algorithms/algo_planargeom_planargeom.hh b/frackit/intersection/algorithms/algo_planargeom_planargeom.hh
index e956364..900c246 100644
--- a/frackit/intersection/algorithms/algo_planargeom_planargeom.hh
+++ b/frackit/intersection/algorithms/algo_planargeom_planargeom.hh
@@ -27,7 +27,9 @@
 
 #include <variant>
 #include <stdexcept>
+#include <type_traits>
 
+#include <frackit/geometry/disk.hh>
 #include <frackit/geometry/point.hh>
 #include <frackit/geometry/line.hh>
 #include <frackit/geometry/segment.hh>
@@ -40,6 +42,7 @@
 #include "algo_segment_segment.hh"
 #include "algo_plane_plane.hh"
 #include "algo_planargeom_line.hh"
+#include "algo_disk_line.hh"
 
 namespace Frackit {
 namespace IntersectionAlgorithms {
@@ -88,8 +91,18 @@ intersect_planarGeometry_planarGeometry(const PlanarGeom1& faceGeom1,
     else if (std::holds_alternative<Line<ctype, worldDim>>(planeIS))
     {
         const auto& isLine = std::get<Line<ctype, worldDim>>(planeIS);
-        const auto is1 = intersect_planarGeometry_line(faceGeom1, isLine, charLength, containsEps1, eps);
-        const auto is2 = intersect_planarGeometry_line(faceGeom2, isLine, charLength, containsEps2, eps);
+
+        // disks have a specialized algorithm that is reliable for lines touching the rim
+        auto intersectWithLine = [&] (const auto& geom, ctype containsEps)
+        {
+            if constexpr (std::is_same_v<std::decay_t<decltype(geom)>, Disk<ctype>>)
+                return intersect_disk_line(geom, isLine, eps);
+            else
+                return intersect_planarGeometry_line(geom, isLine, charLength, containsEps, eps);
+        };
+
+        const auto is1 = intersectWithLine(faceGeom1, containsEps1);
+        const auto is2 = intersectWithLine(faceGeom2, containsEps2);
 
         // each faces intersect the support plane of the other face
         if (std::holds_alternative<Segment<ctype, worldDim>>(is1)
-- 
2.43.0


From 95653023b5f2179f2fd368f4b4f6c985e4d34468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:39 +0000
Subject: [PATCH 46/46] fix: the polygon sampler sorts edges by their angle at
 any scale

---
 frackit/sampling/polygonsampler.hh | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/frackit/sampling/polygonsampler.hh b/frackit/sampling/polygonsampler.hh
index ec3162b..5e0d87c 100644
--- a/frackit/sampling/polygonsampler.hh
+++ b/frackit/sampling/polygonsampler.hh
@@ -267,13 +267,9 @@ public:
 
         auto getAngle = [] (const auto& v)
         {
-            if (abs(v.y()) < 1e-6) return v.x() > 0 ? 0 : M_PI;
-            if (abs(v.x()) < 1e-6) return v.y() > 0 ? M_PI/2.0 : 3.0*M_PI/2.0;
-
-            using std::atan;
-            const auto angle = atan(v.y()/v.x());
-            if (v.x() > 0.0) return angle < 0.0 ? 2.0*M_PI + angle : angle;
-            else return M_PI + angle;
+            using std::atan2;
+            const auto angle = atan2(v.y(), v.x());
+            return angle < 0.0 ? 2.0*M_PI + angle : angle;
         };
 
         // sort edges by angle
-- 
2.43.0

