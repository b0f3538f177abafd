From 125e142cd6874b82bef28f12da60d9cba7aca253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 01/59] fix: point_segment_distance yields NaN when
 cancellation makes the squared distance negative

---
 geometrix/algorithm/distance/point_segment_distance.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/point_segment_distance.hpp b/geometrix/algorithm/distance/point_segment_distance.hpp
index b76c8a2..93794d7 100644
--- a/geometrix/algorithm/distance/point_segment_distance.hpp
+++ b/geometrix/algorithm/distance/point_segment_distance.hpp
@@ -52,7 +52,9 @@ namespace geometrix {
         auto f = dot_product(ab, ab);
         if (e >= f)
             return dot_product(bc, bc);
-        return dot_product(ac, ac) - e * e / f;
+        //! Cancellation can leave a small negative value for points on (or very near) the segment.
+        auto d2 = dot_product(ac, ac) - e * e / f;
+        return d2 > construct<decltype(d2)>(0) ? d2 : construct<decltype(d2)>(0);
     }
 
     template <typename Point, typename Segment>
-- 
2.43.0


From 1a7874ff9ee3b3c2e6aef05ad48757f5cebd4294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 02/59] fix: point_segment_closest_point overloads return NaN
 for zero-length segments

---
 .../algorithm/distance/point_segment_closest_point.hpp     | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/geometrix/algorithm/distance/point_segment_closest_point.hpp b/geometrix/algorithm/distance/point_segment_closest_point.hpp
index 197a32b..e790ccb 100644
--- a/geometrix/algorithm/distance/point_segment_closest_point.hpp
+++ b/geometrix/algorithm/distance/point_segment_closest_point.hpp
@@ -70,6 +70,8 @@ namespace geometrix {
 		vector_t AP = p - A;
 		vector_t AB = B - A;
 		auto l2 = dot_product(AB, AB);
+		if (l2 <= construct<decltype(l2)>(0))
+			return construct<point_t>(A);
 		auto t = dot_product(AP, AB) / l2;
 		if (t <= constants::zero<dimensionless_t>())
             return construct<point_t>(A);
@@ -87,6 +89,11 @@ namespace geometrix {
 		vector_t AP = p - A;
 		vector_t AB = B - A;
 		auto l2 = dot_product(AB, AB);
+		if (l2 <= construct<decltype(l2)>(0))
+		{
+			t = constants::zero<Dimensionless>();
+			return construct<point_t>(A);
+		}
 		t = dot_product(AP, AB) / l2;
 		if (t <= constants::zero<Dimensionless>())
             return construct<point_t>(A);
-- 
2.43.0


From fe9c359c80cac58d9fdf0f24cfcf47187725d6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 03/59] fix: 3D aabb_aabb_distance is unreachable and mixes y
 into the z term

---
 geometrix/algorithm/distance/aabb_aabb_distance.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/distance/aabb_aabb_distance.hpp b/geometrix/algorithm/distance/aabb_aabb_distance.hpp
index d3edb1f..fecc647 100644
--- a/geometrix/algorithm/distance/aabb_aabb_distance.hpp
+++ b/geometrix/algorithm/distance/aabb_aabb_distance.hpp
@@ -66,8 +66,8 @@ namespace geometrix {
             return sqDist;
 		}
 
-		template <typename Point, typename NumericSequence>
-		inline typename result_of::aabb_aabb_distance_sqrd<NumericSequence>::type aabb_aabb_distance_sqrd( const axis_aligned_bounding_box<NumericSequence>& aabb1, const axis_aligned_bounding_box<NumericSequence>& aabb2, dimension<2> )
+		template <typename NumericSequence>
+		inline typename result_of::aabb_aabb_distance_sqrd<NumericSequence>::type aabb_aabb_distance_sqrd( const axis_aligned_bounding_box<NumericSequence>& aabb1, const axis_aligned_bounding_box<NumericSequence>& aabb2, dimension<3> )
 		{
 			using result_type = typename result_of::aabb_aabb_distance_sqrd<NumericSequence>::type;
 
@@ -96,7 +96,7 @@ namespace geometrix {
             //! z
             {
                 if(get<2>(ub2) < get<2>(lb1))
-                    sqDist += square(get<2>(ub2) - get<1>(lb1));
+                    sqDist += square(get<2>(ub2) - get<2>(lb1));
                 else if(get<2>(lb2) > get<2>(ub1))
                     sqDist += square(get<2>(lb2) - get<2>(ub1));
             }
-- 
2.43.0


From 41c145d09ab78702bdff3e6cdf701c6ad8e01380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 04/59] fix: segment_obb_distance tests a diagonal instead of
 the fourth edge

---
 geometrix/algorithm/distance/segment_obb_distance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/segment_obb_distance.hpp b/geometrix/algorithm/distance/segment_obb_distance.hpp
index 061a3a4..2c5b599 100644
--- a/geometrix/algorithm/distance/segment_obb_distance.hpp
+++ b/geometrix/algorithm/distance/segment_obb_distance.hpp
@@ -33,7 +33,7 @@ namespace geometrix {
 		auto sqDistance = segment_segment_distance_sqrd(seg, make_segment(obb[0], obb[1]), cmp);
 		sqDistance = (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[1], obb[2]), cmp));
 		sqDistance = (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[2], obb[3]), cmp));
-		return (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[3], obb[1]), cmp));
+		return (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[3], obb[0]), cmp));
 	}
 
 	namespace result_of
-- 
2.43.0


From f53d8d3b15f131f034ebd3c4f3b120f173ef1300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 05/59] fix: polygon_polygon distance/closest point skip the
 closing edges; polyline_polyline_closest_point can leave its outputs unset

---
 .../polygon_polygon_closest_point.hpp         | 21 ++++++++++++++++++-
 .../distance/polygon_polygon_distance.hpp     |  6 +++++-
 .../polyline_polyline_closest_point.hpp       |  4 ++++
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp b/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
index 3f1ce45..796fe3b 100644
--- a/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
+++ b/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
@@ -103,7 +103,26 @@ namespace geometrix {
         using point_t = typename point_sequence_traits<Polygon1>::point_type;
         using length_t = typename arithmetic_type_of<point_t>::type;
         using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
-        area_t minDist2 = point_point_distance_sqrd(access1::get_point(p1, 0), access2::get_point(p2, 0));
+        //! The subdivision below covers the edges between consecutive indices; the edge closing each polygon is handled here.
+        i1 = access1::size(p1) - 1;
+        area_t minDist2 = segment_polygon_closest_point(access1::get_point(p1, i1), access1::get_point(p1, 0), p2, i2, s, t, c1, c2, cmp);
+        {
+            auto sl = Dimensionless{};
+            auto tl = Dimensionless{};
+            Point c1l, c2l;
+            std::size_t i1l, i2l = access2::size(p2) - 1;
+            auto dl = segment_polygon_closest_point(access2::get_point(p2, i2l), access2::get_point(p2, 0), p1, i1l, tl, sl, c2l, c1l, cmp);
+            if(dl < minDist2)
+            {
+                minDist2 = dl;
+                i1 = i1l;
+                i2 = i2l;
+                s = sl;
+                t = tl;
+                c1 = c1l;
+                c2 = c2l;
+            }
+        }
 
         using index_range = std::tuple<std::size_t, std::size_t>;
         using work_item = std::tuple<index_range, index_range, area_t>;
diff --git a/geometrix/algorithm/distance/polygon_polygon_distance.hpp b/geometrix/algorithm/distance/polygon_polygon_distance.hpp
index 09b117d..7601955 100644
--- a/geometrix/algorithm/distance/polygon_polygon_distance.hpp
+++ b/geometrix/algorithm/distance/polygon_polygon_distance.hpp
@@ -95,7 +95,11 @@ namespace geometrix {
 		using point_t = typename point_sequence_traits<Polygon1>::point_type;
 		using length_t = typename geometric_traits<point_t>::arithmetic_type;
 		using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
-		area_t minDist2 = point_point_distance_sqrd(access1::get_point(p1, 0), access2::get_point(p2, 0));
+		//! The subdivision below covers the edges between consecutive indices; the edge closing each polygon is handled here.
+		auto last1 = access1::size(p1) - 1;
+		auto last2 = access2::size(p2) - 1;
+		area_t minDist2 = (std::min)( segment_polygon_distance_sqrd(access1::get_point(p1, last1), access1::get_point(p1, 0), p2, cmp)
+		                            , segment_polygon_distance_sqrd(access2::get_point(p2, last2), access2::get_point(p2, 0), p1, cmp) );
 
 		using index_range = std::tuple<std::size_t, std::size_t>;
 		using work_item = std::tuple<index_range, index_range, area_t>;
diff --git a/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp b/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp
index c9df598..440bc08 100644
--- a/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp
+++ b/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp
@@ -103,6 +103,10 @@ namespace geometrix {
         using length_t = typename arithmetic_type_of<point_t>::type;
         using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
         area_t minDist2 = point_point_distance_sqrd(access1::get_point(p1, 0), access2::get_point(p2, 0));
+        i1 = i2 = 0;
+        s = t = Dimensionless{};
+        c1 = access1::get_point(p1, 0);
+        c2 = access2::get_point(p2, 0);
 
         using index_range = std::tuple<std::size_t, std::size_t>;
         using work_item = std::tuple<index_range, index_range, area_t>;
-- 
2.43.0


From 7441976c5fd2822e5548c2340dc381752ab2d24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 06/59] fix: ray_segment_intersection without outputs reports
 parallel disjoint segments as overlapping

---
 geometrix/algorithm/intersection/ray_segment_intersection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/ray_segment_intersection.hpp b/geometrix/algorithm/intersection/ray_segment_intersection.hpp
index 259b0b2..7e823df 100644
--- a/geometrix/algorithm/intersection/ray_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/ray_segment_intersection.hpp
@@ -150,7 +150,7 @@ inline intersection_type ray_segment_intersection(const Point& O, const UnitVect
     //If denom is zero then ray and segment are parallel.
     if (cmp.equals(denom, constants::zero<decltype(denom)>()))
     {
-        if (get_orientation(v, v2, cmp) != oriented_collinear)
+        if (get_orientation(A, B, O, cmp) != oriented_collinear)
             return e_non_crossing;
 
         vector_t vOB = B - O;
-- 
2.43.0


From e8bac53cb0874a292b85b896f1bf05912507b26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 07/59] fix: ray_line_intersection treats the line as a
 half-line and reports parallel disjoint lines as overlapping

---
 geometrix/algorithm/intersection/ray_line_intersection.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/geometrix/algorithm/intersection/ray_line_intersection.hpp b/geometrix/algorithm/intersection/ray_line_intersection.hpp
index 27364f8..12aa237 100644
--- a/geometrix/algorithm/intersection/ray_line_intersection.hpp
+++ b/geometrix/algorithm/intersection/ray_line_intersection.hpp
@@ -82,7 +82,8 @@ namespace geometrix {
         //If denom is zero then ray and line are parallel.
         if( cmp.equals( denom, constants::zero<length_t>() ) )
         {
-            if (get_orientation(v, v2, cmp) != oriented_collinear)
+            //! v and v2 are parallel here; the ray is on the line only if its origin is.
+            if (get_orientation(v2, v1, cmp) != oriented_collinear)
             return false;
 
             return ray_line_intersection_result(true,true);
@@ -92,10 +93,6 @@ namespace geometrix {
         if (cmp.less_than(t, constants::zero<Length>()))
         return false;
         
-        auto t2 = scalar_projection(v1, v3) / denom;
-        if (cmp.less_than(t2, constants::zero<decltype(t2)>()))
-        return false;
-
         assign(xPoint, O + t * v);
 
         return true;
-- 
2.43.0


From 69d7b3c3f0299168ccba0e56d8bc201f07782c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 08/59] fix: 3D segment_segment_intersection reports crossing
 when an end of the first segment touches the second

---
 .../algorithm/intersection/segment_segment_intersection.hpp   | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/geometrix/algorithm/intersection/segment_segment_intersection.hpp b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
index 742835b..e731a2e 100644
--- a/geometrix/algorithm/intersection/segment_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
@@ -252,9 +252,7 @@ namespace geometrix {
         
                 if( cmp.less_than( t, zero ) || cmp.greater_than( t, one ) )
                     return e_non_crossing;                
-                else if( cmp.greater_than( t, zero ) && cmp.less_than( t, one ) )
-                    iType = e_crossing;
-                else
+                else if( !(cmp.greater_than( t, zero ) && cmp.less_than( t, one )) )
                     iType = e_endpoint;
         
                 iPoint[0] <<= p1 + s * v1;
-- 
2.43.0


From 3cce3977313895ec0f6768c53f38bc2d2f523d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 09/59] fix: line_aabb_intersection does not compile and
 ignores slabs parallel to the line

---
 .../algorithm/intersection/line_aabb_intersection.hpp  | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/intersection/line_aabb_intersection.hpp b/geometrix/algorithm/intersection/line_aabb_intersection.hpp
index 845efc8..ec46bdb 100644
--- a/geometrix/algorithm/intersection/line_aabb_intersection.hpp
+++ b/geometrix/algorithm/intersection/line_aabb_intersection.hpp
@@ -25,8 +25,8 @@ namespace geometrix {
 
 		line_aabb_intersection_result() = default;
 
-		line_aabb_intersection_result(bool isIntersecting, bool isOriginInside = false)
-			: result((isIntersecting ? e_is_intersecting : 0) | (isOriginInside ? e_origin_inside : 0))
+		line_aabb_intersection_result(bool isIntersecting)
+			: result(isIntersecting ? e_is_intersecting : 0)
 		{}
 
 		bool is_intersecting() const { return (result & e_is_intersecting) != 0; }
@@ -64,7 +64,7 @@ namespace geometrix {
 		auto d = line_access::get_parallel_vector(l);
 
 		using point_t = typename std::decay<decltype(p)>::type;
-		using vector_t = typename std::decay<decltype(v)>::type;
+		using vector_t = typename std::decay<decltype(d)>::type;
 
 #if BOOST_VERSION >= 105700
 		auto tmin = std::numeric_limits<Scalar>::lowest(); // set to -FLT_MAX to get first hit on lineb
@@ -95,6 +95,8 @@ namespace geometrix {
 				if (tmin > tmax)
 					return false;
 			}
+			else if (get<0>(p) < get<0>(a.get_lower_bound()) || get<0>(p) > get<0>(a.get_upper_bound()))
+				return false;// Line is parallel to slab. No hit if origin not within slab 
 		}
 
 		texit = tmax;
@@ -121,6 +123,8 @@ namespace geometrix {
 
 				texit = (std::min)(t2, texit);
 			}
+			else if (get<1>(p) < get<1>(a.get_lower_bound()) || get<1>(p) > get<1>(a.get_upper_bound()))
+				return false;// Line is parallel to slab. No hit if origin not within slab 
 		}
 
 		// line intersects all 2 slabs. Return point (q) and intersection t value (tmin) 
-- 
2.43.0


From 0446901faf3374ae4fe91b30eec7197bca6dc0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 10/59] fix: plane calls a cross_product function that does not
 exist

---
 geometrix/primitive/plane.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/primitive/plane.hpp b/geometrix/primitive/plane.hpp
index 3381c57..803b0f3 100644
--- a/geometrix/primitive/plane.hpp
+++ b/geometrix/primitive/plane.hpp
@@ -37,7 +37,7 @@ public:
         : m_a( a )
         , m_u( normalize(u) )
         , m_v( normalize(v) )
-        , m_n( normalize( cross_product( m_u, m_v ) ) )
+        , m_n( normalize( m_u ^ m_v ) )
         , m_d( scalar_projection( as_vector(m_a), m_n ) )
     {}
 
@@ -45,7 +45,7 @@ public:
         : m_a( a )
         , m_u( normalize(b-a) )
         , m_v( normalize(c-a) )
-        , m_n( normalize( cross_product( m_u, m_v ) ) )
+        , m_n( normalize( m_u ^ m_v ) )
         , m_d( scalar_projection( as_vector(m_a), m_n ) )
     {}
 
-- 
2.43.0


From 48ecce82113f9f82375194aa2ca4ad5a357eeb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 11/59] fix: 3D point_in_triangle calls a cross_product
 function that does not exist

---
 geometrix/algorithm/point_in_polygon.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/point_in_polygon.hpp b/geometrix/algorithm/point_in_polygon.hpp
index 76889d3..72cc1ae 100644
--- a/geometrix/algorithm/point_in_polygon.hpp
+++ b/geometrix/algorithm/point_in_polygon.hpp
@@ -201,6 +201,7 @@ namespace geometrix {
         inline bool point_in_triangle( const Point1& p, const Point2& A, const Point3& B, const Point4& C, const NumberComparisonPolicy& cmp, dimension<3> )
         {
             typedef typename select_arithmetic_type_from_sequences<Point1, Point2>::type arithmetic_type;
+            using area_t = decltype(std::declval<arithmetic_type>() * std::declval<arithmetic_type>());
 
             // Translate point and triangle so that point lies at origin
             vector<arithmetic_type, 3> a = A - p;
@@ -208,15 +209,15 @@ namespace geometrix {
             vector<arithmetic_type, 3> c = C - p;
 
             // Compute normal vectors for triangles pab and pbc
-            auto u = cross_product( b, c );
-            auto v = cross_product( c, a );
+            vector<area_t, 3> u = b ^ c;
+            vector<area_t, 3> v = c ^ a;
 
             // Make sure they are both pointing in the same direction
             if( cmp.less_than(dot_product(u, v), constants::zero<decltype(dot_product(u,v))>() ) )
                 return false;
 
             // Compute normal vector for triangle pca
-            auto w = cross_product(a, b);
+            vector<area_t, 3> w = a ^ b;
 
             // Make sure it points in the same direction as the first two
             if( cmp.less_than(dot_product(u, w), constants::zero<decltype(dot_product(u,w))>() ) )
-- 
2.43.0


From 1baafc6d865bd4ba4310bd92b05582a700319dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 12/59] fix: 3D point_in_triangle accepts points on line BC
 outside the triangle

---
 geometrix/algorithm/point_in_polygon.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/point_in_polygon.hpp b/geometrix/algorithm/point_in_polygon.hpp
index 72cc1ae..14267ba 100644
--- a/geometrix/algorithm/point_in_polygon.hpp
+++ b/geometrix/algorithm/point_in_polygon.hpp
@@ -223,6 +223,10 @@ namespace geometrix {
             if( cmp.less_than(dot_product(u, w), constants::zero<decltype(dot_product(u,w))>() ) )
                 return false;
 
+            // u vanishes when P is on the line BC, so the remaining pair must agree as well
+            if( cmp.less_than(dot_product(v, w), constants::zero<decltype(dot_product(v,w))>() ) )
+                return false;
+
             // Otherwise P must be in (or on) the triangle
             return true;
         }
-- 
2.43.0


From cfe1799fbe99858adca08fe814801fb5bd606da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 13/59] fix: sphere_polyline_intersect lacks a typename and
 does not compile as C++14

---
 .../algorithm/intersection/sphere_polyline_intersection.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/sphere_polyline_intersection.hpp b/geometrix/algorithm/intersection/sphere_polyline_intersection.hpp
index fd5a134..b465321 100644
--- a/geometrix/algorithm/intersection/sphere_polyline_intersection.hpp
+++ b/geometrix/algorithm/intersection/sphere_polyline_intersection.hpp
@@ -26,7 +26,7 @@ inline bool sphere_polyline_intersect( const Sphere& s, const Polyline& pline, V
     BOOST_CONCEPT_ASSERT((PointSequenceConcept<Polyline>));
     BOOST_CONCEPT_ASSERT((NumberComparisonPolicyConcept<NumberComparisonPolicy>));
     using access = point_sequence_traits<Polyline>;
-    using length_t = arithmetic_type_of<typename access::point_type>::type;
+    using length_t = typename arithmetic_type_of<typename access::point_type>::type;
     using dimensionless_t = decltype(std::declval<length_t>() / std::declval<length_t>());
     using point_type = point<length_t, 2>;
 
-- 
2.43.0


From 251efd4d12bed3907286689f8e0f1308fbec4ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 14/59] fix: segment_capsule_intersection never takes its
 parallel branch and divides by zero

---
 .../algorithm/intersection/segment_capsule_intersection.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/segment_capsule_intersection.hpp b/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
index 15532e3..c96ac73 100644
--- a/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
@@ -47,7 +47,7 @@ namespace geometrix {
 		ArithmeticType a = dd * nn - nd * nd; 
 		ArithmeticType k = dot_product(m, m) - r * r; 
 		ArithmeticType c = dd * k - md * md; 
-		if (cmp.less_than(abs(a), 0))
+		if (cmp.equals(a, 0))
 		{
 			// Segment runs parallel to capsule axis
 			if (c > 0)
-- 
2.43.0


From 59bb135441eb1b0ad8328c66ed1a700aebb4ecda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 15/59] fix: segment/ray_sphere_intersection return NaN when a
 tangent discriminant rounds below zero

---
 geometrix/algorithm/intersection/ray_sphere_intersection.hpp    | 2 +-
 .../algorithm/intersection/segment_sphere_intersection.hpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/ray_sphere_intersection.hpp b/geometrix/algorithm/intersection/ray_sphere_intersection.hpp
index 5f830b4..f20b738 100644
--- a/geometrix/algorithm/intersection/ray_sphere_intersection.hpp
+++ b/geometrix/algorithm/intersection/ray_sphere_intersection.hpp
@@ -39,7 +39,7 @@ namespace geometrix {
 
 		// Ray now found to intersect sphere, compute smallest t value of intersection 
 		using std::sqrt;
-		t = -b - sqrt(discr);
+		t = discr > 0 ? -b - sqrt(discr) : -b; // discr may be slightly negative at a tangency
 
 		// If t is negative, ray started inside sphere so clamp t to zero 
 		if (cmp.less_than(t, 0))
diff --git a/geometrix/algorithm/intersection/segment_sphere_intersection.hpp b/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
index 1fc54c8..2e83243 100644
--- a/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
@@ -112,7 +112,7 @@ namespace geometrix {
 
         // segment now found to intersect sphere, compute smallest t value of intersection 
         using std::sqrt;
-        t = -b - sqrt(discr);
+        t = discr > 0 ? -b - sqrt(discr) : -b; // discr may be slightly negative at a tangency
         if (cmp.greater_than(t, length))
             return false;
 
-- 
2.43.0


From 485252ef3947200d6f5d166c10fac03622535b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 16/59] fix: circle_circle/sphere_sphere_intersection return
 NaN points for tangent circles

---
 .../algorithm/intersection/circle_circle_intersection.hpp      | 3 ++-
 .../algorithm/intersection/sphere_sphere_intersection.hpp      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/circle_circle_intersection.hpp b/geometrix/algorithm/intersection/circle_circle_intersection.hpp
index 0f78e45..8c5d598 100644
--- a/geometrix/algorithm/intersection/circle_circle_intersection.hpp
+++ b/geometrix/algorithm/intersection/circle_circle_intersection.hpp
@@ -14,6 +14,7 @@
 #include <geometrix/algebra/expression.hpp>
 #include <geometrix/primitive/sphere_traits.hpp>
 #include <geometrix/arithmetic/vector/perp.hpp>
+#include <algorithm>
 
 #include <boost/optional.hpp>
 
@@ -74,7 +75,7 @@ namespace geometrix {
 
         auto r1 = get_radius(A)*get_radius(A);
         auto a = (r1 - get_radius(B)*get_radius(B) + d*d) / (constants::two<dimensionless_t>() * d);
-        auto h = sqrt(r1 - a*a);
+        auto h = sqrt((std::max)(r1 - a*a, constants::zero<decltype(r1)>())); // r1 - a*a may round below zero at a tangency
 
         vector_t v = get_center(B) - get_center(A);
 
diff --git a/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp b/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp
index 80ae0cf..71c17b7 100644
--- a/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp
+++ b/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp
@@ -14,6 +14,7 @@
 #include <geometrix/algebra/expression.hpp>
 #include <geometrix/primitive/sphere_traits.hpp>
 #include <geometrix/arithmetic/vector/perp.hpp>
+#include <algorithm>
 
 #include <boost/optional.hpp>
 
@@ -74,7 +75,7 @@ namespace geometrix {
 
         auto r1 = get_radius(A) * get_radius(A);
         auto a = (r1 - get_radius(B) * get_radius(B) + d * d) / (constants::two<dimensionless_t>() * d);
-        auto h = sqrt(r1 - a*a);
+        auto h = sqrt((std::max)(r1 - a*a, constants::zero<decltype(r1)>())); // r1 - a*a may round below zero at a tangency
 
         vector_t v = get_center(B) - get_center(A);
 
-- 
2.43.0


From 00fa1a7c8d9056bf842e3afcf16b2a24b3f2d1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 17/59] fix: moving sphere against a segment end reports a
 point off the segment when already overlapping

---
 .../intersection/moving_sphere_segment_intersection.hpp    | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp b/geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp
index 1b4a56d..3c1a2c9 100644
--- a/geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp
@@ -111,11 +111,8 @@ namespace geometrix {
 			if( cmp.less_than( lt, constants::zero<length_t>() ) )
 				lt = constants::zero<length_t>();
 
-			//! t is now the distance along direction where the center will be when it intersects a.
-			point_t newCenter = center + lt * direction;
-
-			//! Now find the intersection point on the sphere.
-			assign( q, newCenter + radius * normalize( a - newCenter ) );
+			//! The endpoint itself is the point of contact.
+			assign( q, a );
 
 			//! Finally, t is a distance... change it to a time.
 			t = lt / speed;
-- 
2.43.0


From 0474ceabdd27ac3cd7cbb13d9114303005cef53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 18/59] fix: moving_sphere_aabb/obb_intersection classify a
 disc already near the box by where it leaves it

---
 .../intersection/moving_sphere_aabb_intersection.hpp      | 8 +++++++-
 .../intersection/moving_sphere_obb_intersection.hpp       | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp b/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
index 48f1905..c3206db 100644
--- a/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
+++ b/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
@@ -85,6 +85,9 @@ namespace geometrix {
         if (!ray_aabb_intersection(get_center(s), velocity, e, t, p, cmp))
             return moving_sphere_aabb_intersection_result();
 
+        // When the center starts inside e, p is where it leaves: the contact is at t.
+        assign(p, get_center(s) + t * velocity);
+
         // Compute which min and max faces of a the intersection point p lies
         // outside of. Note, u and v cannot have the same bits set and 
         // they must have at least one bit set among them 
@@ -140,7 +143,10 @@ namespace geometrix {
             // expanded box is correct intersection time 
             Point newCenter = construct<Point>(get_center(s) + t * velocity);
             //! Now find the intersection point on the sphere.
-            assign(q, newCenter + get_radius(s) * normalize(point_segment_closest_point(newCenter, corner(a, u ^ 3), corner(a, v)) - newCenter));
+            if (m == 0) // The center is inside the box: it is its own closest point.
+                assign(q, newCenter);
+            else
+                assign(q, point_segment_closest_point(newCenter, corner(a, u ^ 3), corner(a, v)));
             return moving_sphere_aabb_intersection_result(true, false, false, true, false);
         } 
         
diff --git a/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp b/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
index 8e9805d..97ab53f 100644
--- a/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
+++ b/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
@@ -97,6 +97,9 @@ namespace geometrix {
         if (!ray_aabb_intersection(get_center(rs), rvelocity, e, t, p, cmp))
             return moving_sphere_obb_intersection_result();
 
+        // When the center starts inside e, p is where it leaves: the contact is at t.
+        assign(p, get_center(rs) + t * rvelocity);
+
         // Compute which min and max faces of a the intersection point p lies
         // outside of. Note, u and v cannot have the same bits set and
         // they must have at least one bit set among them
@@ -152,7 +155,10 @@ namespace geometrix {
             // expanded box is correct intersection time
             Point newCenter = construct<Point>(get_center(s) + t * velocity);
             //! Now find the intersection point on the sphere.
-            assign(q, newCenter + get_radius(s) * normalize(point_segment_closest_point(newCenter, corner(u ^ 3), corner(v)) - newCenter));
+            if (m == 0) // The center is inside the box: it is its own closest point.
+                assign(q, newCenter);
+            else
+                assign(q, point_segment_closest_point(newCenter, corner(u ^ 3), corner(v)));
             return moving_sphere_obb_intersection_result(true, false, false, true, false);
         }
 
-- 
2.43.0


From 463c706f5c9198ea7adb2b0a7ab9ee7493240bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 19/59] fix: SAT get_extreme_index can loop forever or return a
 vertex that is not extreme

---
 .../detail/separating_axis_common.hpp         | 39 ++++---------------
 1 file changed, 8 insertions(+), 31 deletions(-)

diff --git a/geometrix/algorithm/intersection/detail/separating_axis_common.hpp b/geometrix/algorithm/intersection/detail/separating_axis_common.hpp
index d32c109..dc4d028 100644
--- a/geometrix/algorithm/intersection/detail/separating_axis_common.hpp
+++ b/geometrix/algorithm/intersection/detail/separating_axis_common.hpp
@@ -21,14 +21,6 @@ namespace geometrix {
 	
 	namespace detail_separating_axis {
 
-		inline std::size_t get_middle_index(std::size_t i0, std::size_t i1, std::size_t n)
-		{
-			if(i0 < i1)
-				return (i0 + i1) / 2;
-			else
-				return ((i0 + i1 + n) / 2) % n;
-		}
-
 		template <typename Polygon, typename Vector, typename NumberComparisonPolicy>
 		inline std::size_t get_extreme_index(const Polygon& c, const Vector& d, const NumberComparisonPolicy& cmp)
 		{
@@ -37,32 +29,17 @@ namespace geometrix {
 			using length_t = typename arithmetic_type_of<point_type>::type;
 			using vector_t = vector<length_t, dimension_of<point_type>::value>;
 
-			std::size_t i0 = 0;
-			std::size_t i1 = 0;
-			while(true)
+			//! A bisection on the slope at the middle vertex alone can discard the half holding the extreme, so visit every vertex.
+			std::size_t extreme = 0;
+			for(std::size_t i = 1; i < access::size(c); ++i)
 			{
-				std::size_t mid = get_middle_index(i0, i1, access::size(c));
-				std::size_t next = (mid + 1) % access::size(c);
-				vector_t e = access::get_point(c, next) - access::get_point(c, mid);
+				vector_t e = access::get_point(c, i) - access::get_point(c, extreme);
 				auto de = dot_product(d, e);
-				if(cmp.greater_than(de, constants::zero<decltype(de)>()))
-				{
-					if(mid != i0)
-						i0 = mid;
-					else
-						return i1;
-				}
-				else
-				{
-					std::size_t prev = (mid + access::size(c) - 1) % access::size(c);
-					e = access::get_point(c, mid) - access::get_point(c, prev);
-					de = dot_product(d, e);
-					if(cmp.less_than(de, constants::zero<decltype(de)>()))
-						i1 = mid;
-					else
-						return mid;
-				}
+				if(de > constants::zero<decltype(de)>())
+					extreme = i;
 			}
+
+			return extreme;
 		}
 
 		template <typename Polygon, typename Vector, typename Length, typename NumberComparisonPolicy>
-- 
2.43.0


From 22151bc5bb0f74fff1bbd44df27956562633026c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 20/59] fix: convex_polygons_intersection reports overlapping
 counter-clockwise polygons as disjoint

---
 .../separating_axis_convex_polygons.hpp       | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp b/geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp
index 3bee8fc..f92f036 100644
--- a/geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp
+++ b/geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp
@@ -23,23 +23,28 @@ namespace geometrix {
         using length_t = typename arithmetic_type_of<point_type>::type;
 		using vector_t = vector<length_t, dimension_of<point_type>::value>;
 
+		using area_t = decltype(length_t{} * length_t{});
+		auto min1 = area_t{};
+		auto max1 = area_t{};
+		auto min2 = area_t{};
+		auto max2 = area_t{};
+
+		//! The projections are compared as intervals so that the winding of the polygons does not matter.
 		for(std::size_t i0 = 0, i1 = access1::size(p1) - 1; i0 < access1::size(p1); i1 = i0, ++i0)
 		{
 			auto d = left_normal<vector_t>(access1::get_point(p1, i0) - access1::get_point(p1, i1));
-			std::size_t min = get_extreme_index(p2, -d, cmp);
-			vector_t diff = access2::get_point(p2, min) - access1::get_point(p1, i0);
-			auto dd = dot_product(d, diff);
-			if(cmp.greater_than(dd, constants::zero<decltype(dd)>()))
+			compute_interval(p1, d, min1, max1, cmp);
+			compute_interval(p2, d, min2, max2, cmp);
+			if(cmp.less_than_or_equal(max1, min2) || cmp.less_than_or_equal(max2, min1))
 				return false;
 		}
 
 		for(std::size_t i0 = 0, i1 = access2::size(p2) - 1; i0 < access2::size(p2); i1 = i0, ++i0)
 		{
 			auto d = left_normal<vector_t>(access2::get_point(p2, i0) - access2::get_point(p2, i1));
-			std::size_t min = get_extreme_index(p1, -d, cmp);
-			vector_t diff = access1::get_point(p1, min) - access2::get_point(p2, i0);
-			auto dd = dot_product(d, diff);
-			if(cmp.greater_than(dd, constants::zero<decltype(dd)>()))
+			compute_interval(p1, d, min1, max1, cmp);
+			compute_interval(p2, d, min2, max2, cmp);
+			if(cmp.less_than_or_equal(max1, min2) || cmp.less_than_or_equal(max2, min1))
 				return false;
 		}
 
-- 
2.43.0


From 1dd6dd124159f7f92b965eda5c36e3ff5ac0ae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 21/59] fix: polyline_polyline_intersect stops after the first
 intersecting segment

---
 .../intersection/polyline_polyline_intersection.hpp         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp b/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp
index 3a3e344..71516b5 100644
--- a/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp
+++ b/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp
@@ -37,6 +37,7 @@ inline bool polyline_polyline_intersect( const Polyline1& A, const Polyline2& B,
 	using point_type = point<length_t, 2>;
 	
 	bool intersected = false;
+	bool stop = false;
 	for (std::size_t i1 = 0, j1 = 1; j1 < access1::size(A); i1 = j1++)
 	{
 		auto iVisitor = [&](intersection_type iType, std::size_t i, std::size_t j, const point_type& x1, const point_type& x2) -> bool
@@ -46,10 +47,11 @@ inline bool polyline_polyline_intersect( const Polyline1& A, const Polyline2& B,
 			
 			intersected = true;
 	
-			return visitor(iType, i1, j1, i, j, x1, x2);
+			stop = visitor(iType, i1, j1, i, j, x1, x2);
+			return stop;
 		};
 
-		bool stop = segment_polyline_intersect(access1::get_point(A, i1), access1::get_point(A, j1), B, iVisitor, cmp);
+		segment_polyline_intersect(access1::get_point(A, i1), access1::get_point(A, j1), B, iVisitor, cmp);
 		if (stop)
 			return intersected;
 	}
-- 
2.43.0


From 6d977e389d5dc0f1be07e8306a9e7aeb73d7d818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 22/59] fix: segment_polygon_intersection does not compile
 since polygon_containment became an enum class

---
 .../algorithm/intersection/segment_polygon_intersection.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/segment_polygon_intersection.hpp b/geometrix/algorithm/intersection/segment_polygon_intersection.hpp
index 1da3270..41702b3 100644
--- a/geometrix/algorithm/intersection/segment_polygon_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_polygon_intersection.hpp
@@ -57,14 +57,14 @@ namespace geometrix {
                 if (nextIT != intersections.end())
                 {
                     auto test = construct<Segment>(*it, *nextIT);
-                    if (point_polygon_containment_or_on_border(segment_mid_point(test), poly, cmp))
+                    if (point_polygon_containment_or_on_border(segment_mid_point(test), poly, cmp) != polygon_containment::exterior)
                         visitor(test);
                 }
             }
 
             return true;
         }
-        else if (startInside && endInside && point_polygon_containment_or_on_border(segment_mid_point(seg), poly, cmp))
+        else if (startInside && endInside && point_polygon_containment_or_on_border(segment_mid_point(seg), poly, cmp) != polygon_containment::exterior)
         {
             visitor(seg);
             return true;
-- 
2.43.0


From e16f4b8f38d71fda65b7c53d1a03974c42f0d856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:58 +0000
Subject: [PATCH 23/59] fix: convex_polygon_polygon_intersection visits a
 contained polygon with the vertex count of the other

---
 .../intersection/convex_polygon_polygon_intersection.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp b/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
index ded477f..29b41c2 100644
--- a/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
+++ b/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
@@ -160,7 +160,7 @@ namespace geometrix {
             //! Check if one vertex of either is inside.
             if (point_in_polygon(get_point1(0), pgon2)) 
             {
-                for (auto i = 0ULL; i < m; ++i)
+                for (auto i = 0ULL; i < n; ++i)
                     visitor(get_point1(i));
                 return polygon_intersection_type::overlapping;
             }
-- 
2.43.0


From b30276d9a6a1dc1faa4c88cab92e4625f13a3770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 24/59] fix: polyline_split loses the last vertex when the
 position is at or beyond the end

---
 geometrix/algorithm/point_sequence/polyline_split.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/point_sequence/polyline_split.hpp b/geometrix/algorithm/point_sequence/polyline_split.hpp
index 4932c1c..a05660a 100644
--- a/geometrix/algorithm/point_sequence/polyline_split.hpp
+++ b/geometrix/algorithm/point_sequence/polyline_split.hpp
@@ -113,6 +113,10 @@ namespace geometrix {
             }
         }
 
+		//! The position is at or beyond the end: the whole polyline comes first.
+		if (j == size)
+			a.push_back(access::get_point(poly, i));
+
 		polyline_t b = { a.back() };
         for (; j < size; ++j)
             b.push_back(access::get_point(poly, j));
-- 
2.43.0


From 512b8d0f42608bec977872ed33cc8d9164aa7245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 25/59] fix: ramer_douglas_peucker_algorithm leaves the split
 vertex out of the first half

---
 .../point_sequence/ramer_douglas_peucker_algorithm.hpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp b/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
index d21f22f..3c05e95 100644
--- a/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
+++ b/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
@@ -51,7 +51,7 @@ namespace geometrix {
 			// If max distance is greater than epsilon, recursively simplify
 			if (dmax > epsilon)
 			{
-				ramer_douglas_peucker_algorithm(poly, nPoly, start, index, epsilon);
+				ramer_douglas_peucker_algorithm(poly, nPoly, start, index + 1, epsilon);
 				access::pop_back(nPoly);
 				ramer_douglas_peucker_algorithm(poly, nPoly, index, end, epsilon);
 			}
-- 
2.43.0


From adcfdd3cbf48c7a2c1e5a22bf4221e16d3959363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 26/59] fix: collinear points at the start and end of a polygon
 are kept, and identify_collinear_points_polygon names the wrong vertex

---
 .../remove_collinear_points.hpp               | 36 ++++++++++++-------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/geometrix/algorithm/point_sequence/remove_collinear_points.hpp b/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
index 9d06796..4da84f4 100644
--- a/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
+++ b/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
@@ -13,6 +13,7 @@
 #include <geometrix/primitive/point_sequence_traits.hpp>
 #include <geometrix/utility/utilities.hpp>
 #include <set>
+#include <vector>
 
 namespace geometrix {
 
@@ -27,26 +28,28 @@ namespace geometrix {
         if (size < 4)
             return cPoints;
 
-        Polygon newPoly{ poly.front(), access::get_point(poly, 1) };
+        std::vector<std::size_t> kept{ 0, 1 };
         for (std::size_t i = 2; i < size; ++i)
         {
-            const auto& a = access::get_point(newPoly, access::size(newPoly) - 2);
-            auto& b = access::back(newPoly);
-            const auto& c = poly[i];
-            if (!is_collinear(a, b, c, cmp))
+            if (!is_collinear(access::get_point(poly, kept[kept.size() - 2]), access::get_point(poly, kept.back()), access::get_point(poly, i), cmp))
+                kept.push_back(i);
+            else
             {
-                if (i + 1 < size || !is_collinear(b, c, access::front(poly), cmp))
-                {
-                    newPoly.push_back(c);
-                    continue;
-                }
+                cPoints.insert(kept.back());
+                kept.back() = i;
             }
-            else
-                assign(b, c);//! replace b with c.      
+        }
 
-            cPoints.insert(i);
+        //! The polygon is closed, so the points at either end of the sequence may be collinear with their neighbors too.
+        while (kept.size() > 3 && is_collinear(access::get_point(poly, kept[kept.size() - 2]), access::get_point(poly, kept.back()), access::get_point(poly, kept.front()), cmp))
+        {
+            cPoints.insert(kept.back());
+            kept.pop_back();
         }
 
+        if (kept.size() > 3 && is_collinear(access::get_point(poly, kept.back()), access::get_point(poly, kept.front()), access::get_point(poly, kept[1]), cmp))
+            cPoints.insert(kept.front());
+
         return cPoints;
     }
 
@@ -75,6 +78,13 @@ namespace geometrix {
                 assign(b, c);//! replace b with c.      
         }
 
+        //! The polygon is closed, so the points at either end of the sequence may be collinear with their neighbors too.
+        while (access::size(newPoly) > 3 && is_collinear(access::get_point(newPoly, access::size(newPoly) - 2), access::back(newPoly), access::front(newPoly), cmp))
+            newPoly.pop_back();
+
+        if (access::size(newPoly) > 3 && is_collinear(access::back(newPoly), access::front(newPoly), access::get_point(newPoly, 1), cmp))
+            newPoly.erase(newPoly.begin());
+
         return newPoly;
     }
 
-- 
2.43.0


From 28788c5b9be02043b074d0150c6458dd84204b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 27/59] fix: repeated copies of the first point at the end of a
 polygon are not coalesced

---
 .../point_sequence/remove_collinear_points.hpp     | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/geometrix/algorithm/point_sequence/remove_collinear_points.hpp b/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
index 4da84f4..6cd4dd4 100644
--- a/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
+++ b/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
@@ -136,6 +136,10 @@ namespace geometrix {
             }
         }
 
+        //! Points before the last may coincide with the front as well.
+        while (access::size(newPoly) > 1 && !cmp.greater_than(point_point_distance_sqrd(access::back(newPoly), access::front(newPoly)), constants::zero<decltype(point_point_distance_sqrd(access::back(newPoly), access::front(newPoly)))>()))
+            newPoly.pop_back();
+
         return newPoly;
     }
 
@@ -150,6 +154,7 @@ namespace geometrix {
 
         //! TODO: need to generically construct polygons.
         Polygon newPoly{ poly.front() };
+        std::vector<std::size_t> kept{ 0 };
         for (std::size_t i = 1; i < size; ++i)
         {
             auto& a = access::back(newPoly);
@@ -160,6 +165,7 @@ namespace geometrix {
                 if (i + 1 < size || cmp.greater_than(point_point_distance_sqrd(b, access::front(poly)), constants::zero<decltype(distanceSqrd)>()))
                 {
                     newPoly.push_back(b);
+                    kept.push_back(i);
                     continue;
                 }
             }
@@ -167,6 +173,14 @@ namespace geometrix {
             cIndex.insert(i);
         }
 
+        //! Points before the last may coincide with the front as well.
+        while (access::size(newPoly) > 1 && !cmp.greater_than(point_point_distance_sqrd(access::back(newPoly), access::front(newPoly)), constants::zero<decltype(point_point_distance_sqrd(access::back(newPoly), access::front(newPoly)))>()))
+        {
+            cIndex.insert(kept.back());
+            kept.pop_back();
+            newPoly.pop_back();
+        }
+
         return cIndex;
     }
 
-- 
2.43.0


From 43939649254339790af06bfdaee1cc875452d54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 28/59] fix: polyline_offset reads an uninitialized point at a
 collinear vertex

---
 geometrix/algorithm/point_sequence/polyline_offset.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/point_sequence/polyline_offset.hpp b/geometrix/algorithm/point_sequence/polyline_offset.hpp
index 070a599..e4540d9 100644
--- a/geometrix/algorithm/point_sequence/polyline_offset.hpp
+++ b/geometrix/algorithm/point_sequence/polyline_offset.hpp
@@ -325,7 +325,8 @@ namespace geometrix {
 					auto pOffsetC = construct<point_type>(C + vNormalCD);
 					auto pOffsetD = construct<point_type>(D + vNormalCD);
 
-					point_type xPoint;
+					//! Consecutive collinear segments have no crossing point, but share their offset vertex.
+					point_type xPoint = pOffsetB;
 					line_line_intersect(pOffsetA, pOffsetB, pOffsetC, pOffsetD, xPoint, cmp);
 					result.push_back(xPoint);
 
-- 
2.43.0


From 6c8be5959658cc9c2184732d23b4e84cd2662582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 29/59] fix: point_polyline_orientation takes a point before
 the start of a segment to be closest to its end

---
 .../algorithm/point_sequence/point_polyline_orientation.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp b/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp
index 34c38f2..21cbcce 100644
--- a/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp
+++ b/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp
@@ -46,7 +46,7 @@ namespace geometrix {
 			point_segment_closest_point_and_param(p, pi, pj, t);
 			if (t > constants::zero<dimensionless_t>() && t < constants::one<dimensionless_t>())
 				return get_orientation(pi, pj, p, cmp);
-			else if (cmp.equals(t, constants::zero<dimensionless_t>()))
+			else if (cmp.less_than_or_equal(t, constants::zero<dimensionless_t>()))
 			{
 				//! Closest point is a vertex i.
 				if (segIndex != 0)
-- 
2.43.0


From e274eaade8dac2661b82232eaefd1181c0a4c14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 30/59] fix: polyline_self_intersection reports consecutive
 collinear segments as intersecting

---
 geometrix/algorithm/point_sequence/self_intersection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/point_sequence/self_intersection.hpp b/geometrix/algorithm/point_sequence/self_intersection.hpp
index b664591..242d59d 100644
--- a/geometrix/algorithm/point_sequence/self_intersection.hpp
+++ b/geometrix/algorithm/point_sequence/self_intersection.hpp
@@ -40,7 +40,7 @@ namespace geometrix {
 		{
 			for (std::size_t j = i + 1; (j + 1) < size; ++j)
 			{
-				if (is_intersecting(i, j) && (!adjacent(i, j) || iType == e_overlapping))
+				if (is_intersecting(i, j) && (!adjacent(i, j) || (iType == e_overlapping && !numeric_sequence_equals(xPoints[0], xPoints[1], cmp))))
 				{
 					isIntersecting = true;
 					visit(i, j, iType, xPoints[0], xPoints[1]);
-- 
2.43.0


From 34f5b019ceff0322660a28eec6a0af9de3c7e119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 31/59] fix: lexicographical_segment_compare takes the end of
 the first segment from the second

---
 geometrix/utility/utilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/utility/utilities.hpp b/geometrix/utility/utilities.hpp
index 6f7be0a..7cfa733 100644
--- a/geometrix/utility/utilities.hpp
+++ b/geometrix/utility/utilities.hpp
@@ -481,7 +481,7 @@ namespace geometrix {
             typedef typename geometric_traits< Segment >::point_type point_type;
 
             const point_type& start1 = get_start( s1 );
-            const point_type& end1   = get_end( s2 );
+            const point_type& end1   = get_end( s1 );
             const point_type& start2 = get_start( s2 );
             const point_type& end2   = get_end( s2 );
 
-- 
2.43.0


From 703a0a14fe80beb07c9f7f1c6e7dab40844e81ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:46 +0000
Subject: [PATCH 32/59] fix: is_segment_in_range_2d accepts segments behind the
 origin and misses segments crossing the range

---
 geometrix/algorithm/is_segment_in_range.hpp | 46 +++++++--------------
 1 file changed, 16 insertions(+), 30 deletions(-)

diff --git a/geometrix/algorithm/is_segment_in_range.hpp b/geometrix/algorithm/is_segment_in_range.hpp
index e01b34b..64b2ab8 100644
--- a/geometrix/algorithm/is_segment_in_range.hpp
+++ b/geometrix/algorithm/is_segment_in_range.hpp
@@ -73,12 +73,12 @@ namespace geometrix {
 
 		direct_comparison_policy directCmp;
 		//! Special case where both segment endpoints lay on a range vector.
-		//! In that case the segment either is inside the range or outside.
+		//! Neither endpoint is in the range, so both lay behind the origin.
 		if( detHiSegStart == constants::zero<area_t>() && detLoSegEnd == constants::zero<area_t>())
-			return get_orientation( get_start(segment), get_end(segment), origin, directCmp) != oriented_left;
+			return false;
 		
 		if( detHiSegEnd == constants::zero<area_t>() && detLoSegStart == constants::zero<area_t>())
-			return get_orientation( get_start(segment), get_end(segment), origin, directCmp) != oriented_right;
+			return false;
 		
 		//! Test the intersections		
 		return ray_segment_intersection(origin, normalize(lo), segment, directCmp) != e_non_crossing || ray_segment_intersection(origin, normalize(hi), segment, directCmp) != e_non_crossing;
@@ -120,11 +120,12 @@ namespace geometrix {
 
 		if( startIn != endIn )
 		{
-			Point xPointLo, xPointHi;
-			intersection_type loIType = line_segment_intersect( origin, origin + lo, segment, xPointLo, cmp );			
+			Point xPointLo[2], xPointHi[2];
+			length_t t;
+			intersection_type loIType = ray_segment_intersection( origin, normalize(lo), segment, t, xPointLo, cmp );
 			if( loIType == e_crossing )
 			{
-				xPoints[0] = xPointLo;
+				xPoints[0] = xPointLo[0];
 				xPoints[1] = startIn ? get_start( segment ) : get_end( segment );
 				return true;
 			}
@@ -135,14 +136,14 @@ namespace geometrix {
 				return true;
 			}
 
-			intersection_type hiIType = line_segment_intersect( origin, origin + hi, segment, xPointHi, cmp );
+			intersection_type hiIType = ray_segment_intersection( origin, normalize(hi), segment, t, xPointHi, cmp );
 			if( (hiIType == e_crossing || hiIType == e_endpoint) )
 			{
 				if( loIType == e_endpoint )
-					xPoints[0] = xPointLo;
+					xPoints[0] = xPointLo[0];
 				else
 					xPoints[0] = startIn ? get_start( segment ) : get_end( segment );
-				xPoints[1] = xPointHi;				
+				xPoints[1] = xPointHi[0];				
 				return true;
 			}
 			else if( hiIType == e_overlapping )
@@ -152,19 +153,16 @@ namespace geometrix {
 				return true;
 			}
 
-			return false;
+			//! Only the end in the range touches it.
+			xPoints[0] = startIn ? get_start( segment ) : get_end( segment );
+			xPoints[1] = xPoints[0];
+			return true;
 		}
 
-		//! Are both points outside the range?
-		const auto dotHiSegStart = dot_product( hi, vSegStart );
-		const auto dotLoSegEnd = dot_product( lo, vSegEnd );
-		const auto dotLoSegStart = dot_product( lo, vSegStart );
-		const auto dotHiSegEnd = dot_product( hi, vSegEnd );
-
 		//! Check if start is outside of the hi end and end is outside the lo end.
 		//! or check if end is outside the hi end and start is outside the lo end.
-		if( ( detHiSegStart >= constants::zero<area_t>() && detLoSegEnd < constants::zero<area_t>() && dotHiSegStart > constants::zero<area_t>() && dotLoSegEnd > constants::zero<area_t>() ) ||
-			( detHiSegEnd >= constants::zero<area_t>() && detLoSegStart < constants::zero<area_t>() && dotHiSegEnd > constants::zero<area_t>() && dotLoSegStart > constants::zero<area_t>() ) )
+		if( ( detHiSegStart >= constants::zero<area_t>() && detLoSegEnd < constants::zero<area_t>() ) ||
+			( detHiSegEnd >= constants::zero<area_t>() && detLoSegStart < constants::zero<area_t>() ) )
 		{
 			//! Crosses both in this case.
 			Point xPointLo[2], xPointHi[2];
@@ -184,18 +182,6 @@ namespace geometrix {
 				return true;
 			}
 		}
-		else 
-		{
-			//! Special case where both segment endpoints lay on a range vector.
-			//! In that case the segment either is inside the range or outside.
-			if ((detHiSegStart == constants::zero<area_t>() && detLoSegEnd == constants::zero<area_t>() && get_orientation(get_start(segment), get_end(segment), origin, absolute_tolerance_comparison_policy<area_t>(constants::zero<area_t>())) != oriented_left) ||
-				(detHiSegEnd == constants::zero<area_t>() && detLoSegStart == constants::zero<area_t>() && get_orientation(get_start(segment), get_end(segment), origin, absolute_tolerance_comparison_policy<area_t>(constants::zero<area_t>())) != oriented_right))
-			{
-				xPoints[0] = get_start(segment);
-				xPoints[1] = get_start(segment);
-				return true;
-			}
-		}
 
 		//! The segment falls outside of the range.
 		return false;
-- 
2.43.0


From 99a9fd7912756627f49ad19004c1f6361b0bd14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:46 +0000
Subject: [PATCH 33/59] fix: pseudo_angle of a vector with a y of negative zero
 is not in [0, 4)

---
 geometrix/utility/vector_angle_compare.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geometrix/utility/vector_angle_compare.hpp b/geometrix/utility/vector_angle_compare.hpp
index 7c555cb..8ed2db5 100644
--- a/geometrix/utility/vector_angle_compare.hpp
+++ b/geometrix/utility/vector_angle_compare.hpp
@@ -26,9 +26,8 @@ namespace geometrix {
     {
         GEOMETRIX_ASSERT(!is_null(v));
         using std::abs;
-        using std::copysign;
-        auto result = copysign(1.0 - get<0>(v) / (abs(get<0>(v))+abs(get<1>(v))), get<1>(v));
-        return (get<1>(v) < 0) ? 4 + result : result;
+        auto result = 1.0 - get<0>(v) / (abs(get<0>(v))+abs(get<1>(v)));
+        return (get<1>(v) < 0) ? 4 - result : result;
     }
 
     template <typename NumberComparisonPolicy>
-- 
2.43.0


From 4165e6e542730ab7f09d999ce7d966baa3122a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:57 +0000
Subject: [PATCH 34/59] fix: bisect is not the bisector of vectors of unequal
 length and is not normalized for parallel ones; slerp lacks a typename

---
 geometrix/arithmetic/vector/bisect.hpp | 30 ++++++++++++++------------
 geometrix/arithmetic/vector/slerp.hpp  |  2 +-
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/geometrix/arithmetic/vector/bisect.hpp b/geometrix/arithmetic/vector/bisect.hpp
index 5c0b31e..364033e 100644
--- a/geometrix/arithmetic/vector/bisect.hpp
+++ b/geometrix/arithmetic/vector/bisect.hpp
@@ -31,22 +31,24 @@ namespace geometrix {
     template <typename Vector1, typename Vector2>
     inline typename result_of::bisect<Vector1, Vector2>::type bisect(const Vector1& lo, const Vector2& hi)
     {
-        using dimensionless_t = typename dimensionless_type_of<Vector1>::type;
+		using result_type = typename result_of::bisect<Vector1, Vector2>::type;
 		auto nlo = normalize(lo);
 		auto nhi = normalize(hi);
 		auto dp = dot_product(nlo, nhi);
-		if (dp > constants::negative_one<decltype(dp)>() && dp < constants::one<decltype(dp)>()) 
+		if (dp < constants::zero<decltype(dp)>())
 		{
-			auto one_half = constants::one_half<dimensionless_t>();
-			auto orientation = get_orientation(lo, hi, direct_comparison_policy());
-			if(orientation != oriented_right)
-				return normalize(one_half * (lo + hi));
-			return normalize(one_half * (-lo - hi));
+			//! Obtuse (or anti-parallel): the chord is better conditioned than the sum, and its right normal points into the sweep for either winding.
+			result_type chord = nhi - nlo;
+			return normalize(right_normal(chord));
 		}
-		else if (dp == constants::negative_one<decltype(dp)>())
-			return right_normal(nhi);
 
-		return -hi;
+		auto orientation = get_orientation(lo, hi, direct_comparison_policy());
+		if (orientation == oriented_left)
+			return normalize(nlo + nhi);
+		if (orientation == oriented_right)
+			return normalize(-nlo - nhi);
+
+		return -nhi;
     }
 	
 	//! Find the bisect between two vectors whose winding (rotational) progression is counter-clockwise from lo to hi.
@@ -55,13 +57,13 @@ namespace geometrix {
     inline typename result_of::bisect<Vector1, Vector2>::type bisect_not_antiparallel(const Vector1& lo, const Vector2& hi)
     {
 		GEOMETRIX_ASSERT(!is_antiparallel(lo, hi, direct_comparison_policy()));
-        using dimensionless_t = typename dimensionless_type_of<Vector1>::type;
-        auto one_half = constants::one_half<dimensionless_t>();
+		auto nlo = normalize(lo);
+		auto nhi = normalize(hi);
 		auto orientation = get_orientation(lo, hi, direct_comparison_policy());
 		if(orientation != oriented_right)
-	        return normalize(one_half * (lo + hi));
+	        return normalize(nlo + nhi);
 		else
-	        return normalize(one_half * (-lo - hi));
+	        return normalize(-nlo - nhi);
     }
 
 }//! namespace geometrix;
diff --git a/geometrix/arithmetic/vector/slerp.hpp b/geometrix/arithmetic/vector/slerp.hpp
index 6f4292b..4d0d68a 100644
--- a/geometrix/arithmetic/vector/slerp.hpp
+++ b/geometrix/arithmetic/vector/slerp.hpp
@@ -20,7 +20,7 @@ namespace geometrix {
         template <typename Vector1, typename Vector2, typename Scalar, typename EnableIf = void>
         struct slerp
         {
-            using dimensionless_t = dimensionless_type_of<Vector1>::type;
+            using dimensionless_t = typename dimensionless_type_of<Vector1>::type;
             using type = vector<dimensionless_t, dimension_of<Vector1>::value>;
         };
     }//namespace result_of;
-- 
2.43.0


From a160c18469a040d8c8a1613bc9e8997d3595b1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:24 +0000
Subject: [PATCH 35/59] fix: matrix times scalar reads the elements from the
 scalar and does not compile

---
 geometrix/algebra/functions/multiplication.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algebra/functions/multiplication.hpp b/geometrix/algebra/functions/multiplication.hpp
index 6844684..816c698 100644
--- a/geometrix/algebra/functions/multiplication.hpp
+++ b/geometrix/algebra/functions/multiplication.hpp
@@ -193,7 +193,7 @@ namespace geometrix {
 
             result_type operator()(tag_t, const Left& l, const Right& r ) const
             {
-                return do_multiplies(get<Row, Column>( r ), get( l ));
+                return do_multiplies(get<Row, Column>( l ), get( r ));
             }
         };
     };
-- 
2.43.0


From ec76b486f9155dc6f2d3b0a213f68c5ff7f9024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 36/59] fix: assigning an expression to a point or vector that
 appears in it reads components already overwritten

---
 geometrix/tensor/detail/numeric_sequence_n.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geometrix/tensor/detail/numeric_sequence_n.hpp b/geometrix/tensor/detail/numeric_sequence_n.hpp
index 66f56ce..c51a7ec 100644
--- a/geometrix/tensor/detail/numeric_sequence_n.hpp
+++ b/geometrix/tensor/detail/numeric_sequence_n.hpp
@@ -137,9 +137,12 @@ public:
     {
         //! Helper macro to build access traits code.
         #define GEOMETRIX_ASSIGN_ACCESS_EXPR_( z, i, e ) \
-            (*this)[i] = geometrix::get<i>( e );         \
+            result[i] = geometrix::get<i>( e );          \
         /***/
+        //! The expression may refer to this sequence: evaluate it completely before assigning.
+        numeric_array result;
         BOOST_PP_REPEAT( DIMENSION, GEOMETRIX_ASSIGN_ACCESS_EXPR_, e )
+        m_sequence = result;
         return *this;
         #undef GEOMETRIX_ASSIGN_ACCESS_EXPR
     }
-- 
2.43.0


From 59d2402e5dd2e82ae01bf03285a3f26e0e71669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 37/59] fix: bresenham_segment_traversal uses an undeclared
 math::abs and does not compile

---
 geometrix/algorithm/bresenham_grid_traversal.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/geometrix/algorithm/bresenham_grid_traversal.hpp b/geometrix/algorithm/bresenham_grid_traversal.hpp
index 3c8366a..9b2f1db 100644
--- a/geometrix/algorithm/bresenham_grid_traversal.hpp
+++ b/geometrix/algorithm/bresenham_grid_traversal.hpp
@@ -13,6 +13,8 @@
 #include <geometrix/primitive/segment_traits.hpp>
 #include <geometrix/arithmetic/arithmetic.hpp>
 
+#include <cstdlib>
+
 namespace geometrix
 {
     template <typename Grid, typename Segment, typename Visitor>
@@ -38,7 +40,7 @@ namespace geometrix
         }
         else if (dy == 0) // have a horizontal line
         {
-            xsign = dx / math::abs(dx);
+            xsign = dx / std::abs(dx);
 
             visitor(bx, by);
             while (bx != x2)
@@ -49,7 +51,7 @@ namespace geometrix
         }
         else if (dx == 0) // have vertical line
         {
-            ysign = dy / math::abs(dy);
+            ysign = dy / std::abs(dy);
             visitor(bx, by);
             while (by != y2)
             {
@@ -59,10 +61,10 @@ namespace geometrix
         }
         else // use Bresenham algorithm
         {
-            xsign = dx / math::abs(dx);
-            ysign = dy / math::abs(dy);
-            dx = math::abs(dx);
-            dy = math::abs(dy);
+            xsign = dx / std::abs(dx);
+            ysign = dy / std::abs(dy);
+            dx = std::abs(dx);
+            dy = std::abs(dy);
             // set initial point on line
             visitor(bx, by);
 
-- 
2.43.0


From 68ead11e5ac0a91a8ce27413b2472f47737a9037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 38/59] fix: fast_voxel_grid_traversal misses the end cell at a
 cell corner and stops early on nearly axis-parallel segments

---
 geometrix/algorithm/fast_voxel_grid_traversal.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geometrix/algorithm/fast_voxel_grid_traversal.hpp b/geometrix/algorithm/fast_voxel_grid_traversal.hpp
index 0681423..3041080 100644
--- a/geometrix/algorithm/fast_voxel_grid_traversal.hpp
+++ b/geometrix/algorithm/fast_voxel_grid_traversal.hpp
@@ -107,7 +107,7 @@ namespace geometrix
 		boost::int32_t stepJ, outJ;
         
 		const auto zero = constants::zero<length_t>();
-		if( cmp.greater_than( get<0>(segmentDirection), zero ) )
+		if( i < i_end )
         {
             stepI = 1;
             outI = grid.get_width();
@@ -120,7 +120,7 @@ namespace geometrix
 			set<0>(cellBorder, length_t(minX + construct<dimensionless_t>(i) * grid.get_cell_size()));
         }
 
-		if( cmp.greater_than( get<1>(segmentDirection), zero ) )
+		if( j < j_end )
         {
             stepJ = 1;
             outJ = grid.get_height();
@@ -144,7 +144,7 @@ namespace geometrix
         
         while(true)
         {
-			if( tmax.template get<0>() < tmax.template get<1>() )
+			if( i != i_end && (j == j_end || tmax.template get<0>() < tmax.template get<1>()) )
             {
                 i += stepI;
                 if (i == static_cast<std::uint32_t>(outI))
@@ -254,7 +254,7 @@ namespace geometrix
 		boost::int32_t stepJ, outJ;
         
 		const auto zero = constants::zero<length_t>();
-		if( cmp.greater_than( get<0>(segmentDirection), zero ) )
+		if( i < i_end )
         {
             stepI = 1;
             outI = grid.get_width();
@@ -267,7 +267,7 @@ namespace geometrix
 			set<0>(cellBorder, length_t(minX + construct<dimensionless_t>(i) * grid.get_cell_size()));
         }
 
-		if( cmp.greater_than( get<1>(segmentDirection), zero ) )
+		if( j < j_end )
         {
             stepJ = 1;
             outJ = grid.get_height();
@@ -291,7 +291,7 @@ namespace geometrix
         
         while(true)
         {
-			if( tmax.template get<0>() < tmax.template get<1>() )
+			if( i != i_end && (j == j_end || tmax.template get<0>() < tmax.template get<1>()) )
             {
                 i += stepI;
                 if (i == static_cast<std::uint32_t>(outI))
-- 
2.43.0


From 7bd2e1cb3a4a24d4e743190e67c7c04fba59e2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 39/59] fix: orientation_segment_traversal runs away on
 segments going down within a column and skips cells to rounding

---
 .../algorithm/orientation_grid_traversal.hpp  | 70 ++++++-------------
 1 file changed, 21 insertions(+), 49 deletions(-)

diff --git a/geometrix/algorithm/orientation_grid_traversal.hpp b/geometrix/algorithm/orientation_grid_traversal.hpp
index ac34cdc..6a4d0a7 100644
--- a/geometrix/algorithm/orientation_grid_traversal.hpp
+++ b/geometrix/algorithm/orientation_grid_traversal.hpp
@@ -63,13 +63,8 @@ namespace geometrix
         BOOST_AUTO(x2, grid.get_scaled_grid_coordinate_x(tx));
         BOOST_AUTO(y2, grid.get_scaled_grid_coordinate_y(ty));
 
-        int signDeltaY = cmp.greater_than_or_equal(y2, y1) ? 1 : -1;
-        
-        coordinate_type x = x1;
-        coordinate_type y = y1;
-
-        std::uint32_t i = static_cast<std::uint32_t>(x);
-        std::uint32_t j = static_cast<std::uint32_t>(y);
+        std::uint32_t i = static_cast<std::uint32_t>(x1);
+        std::uint32_t j = static_cast<std::uint32_t>(y1);
 
         std::uint32_t i_end = static_cast<std::uint32_t>(x2);
         std::uint32_t j_end = static_cast<std::uint32_t>(y2);
@@ -84,7 +79,10 @@ namespace geometrix
 
             while (j != j_end)
             {
-                ++j;
+                if (j < j_end)
+                    ++j;
+                else
+                    --j;
                 visitor(i, j);
             }
             return;
@@ -95,15 +93,19 @@ namespace geometrix
         {
             while (i != i_end)
             {
-                ++i;
+                if (i < i_end)
+                    ++i;
+                else
+                    --i;
                 visitor(i, j);
             }
             return;
         }
 
         //! The segment is sloped. Use a Bresenham-like traversal which is guided by the segment's orientation to the cells.
-        std::uint32_t old_i = i, old_j = j;
-        while (true)
+        const int signDeltaX = i < i_end ? 1 : -1;
+        const int signDeltaY = j < j_end ? 1 : -1;
+        while (i != i_end || j != j_end)
         {
             point<coordinate_type,2> cornerPoint;
             orientation_type orientation = oriented_collinear;
@@ -125,45 +127,15 @@ namespace geometrix
                     orientation = oriented_left;
             }
 
-            //! Check for overrun.
-            coordinate_type xdiff = x2 - x;
-            coordinate_type ydiff = y2 - y;
-            bool x_is_over = cmp.less_than(xdiff, 0);
-            bool y_is_over = signDeltaY > 0 ? cmp.less_than(ydiff, 0) : cmp.greater_than(ydiff, 0);
-
-            if (orientation == oriented_left)
-            {
-                if (x_is_over || cmp.equals(xdiff, 0))
-                    break;
-                else
-                    x += (std::min<coordinate_type>)(1, xdiff);
-            }
-            else if (orientation == oriented_collinear)
-            {
-                if ((x_is_over && y_is_over) || (cmp.equals(xdiff, 0) && cmp.equals(ydiff, 0)))
-                    break;
-                else
-                {
-                    x += (std::min<coordinate_type>)(1, xdiff);
-                    y += signDeltaY > 0 ? (std::min<coordinate_type>)(signDeltaY, ydiff) : (std::max<coordinate_type>)(signDeltaY, ydiff);
-                }
-            }
-            else if (orientation == oriented_right)
-            {
-                if (y_is_over || cmp.equals(ydiff, 0))
-                    break;
-                else
-                    y += signDeltaY > 0 ? (std::min<coordinate_type>)(signDeltaY, ydiff) : (std::max<coordinate_type>)(signDeltaY, ydiff);
-            }
-
-            i = static_cast<std::uint32_t>(x);
-            j = static_cast<std::uint32_t>(y);
-
-            if (old_i != i || old_j != j)
-                visitor(i, j);
+            //! Stepping whole cells never skips one to rounding, nor runs past the end cell.
+            const bool stepX = i != i_end && (j == j_end || orientation != oriented_right);
+            const bool stepY = j != j_end && (i == i_end || orientation != oriented_left);
+            if (stepX)
+                i += signDeltaX;
+            if (stepY)
+                j += signDeltaY;
 
-            old_i = i;
-            old_j = j;
+            visitor(i, j);
         }
     }
 }//! namespace geometrix;
-- 
2.43.0


From 297aa486b61a933f475b13dc6ac8a6188e63cb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 40/59] fix: floodfill_grid_traversal visits cells inside a
 hole when bounds of holes nest in a column

---
 geometrix/algorithm/floodfill_grid_traversal.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/floodfill_grid_traversal.hpp b/geometrix/algorithm/floodfill_grid_traversal.hpp
index 58aa61d..5cc2ebc 100644
--- a/geometrix/algorithm/floodfill_grid_traversal.hpp
+++ b/geometrix/algorithm/floodfill_grid_traversal.hpp
@@ -212,7 +212,9 @@ namespace geometrix
 					//! Sweep j and find first empty.
 					for (auto k = jmin + 1; k < jmax; ) 
 					{
-						if (bit != holeBounds.end() && k >= bit->first && k <= bit->second)
+						while (bit != holeBounds.end() && bit->second < k)
+							++bit;
+						if (bit != holeBounds.end() && k >= bit->first)
 						{
 							k = bit->second + 1;
 							++bit;
@@ -250,7 +252,9 @@ namespace geometrix
 					//! Sweep j and find first empty.
 					for (auto k = jmin + 1; k < jmax; ) 
 					{
-						if (bit != holeBounds.end() && k >= bit->first && k <= bit->second)
+						while (bit != holeBounds.end() && bit->second < k)
+							++bit;
+						if (bit != holeBounds.end() && k >= bit->first)
 						{
 							k = bit->second + 1;
 							++bit;
-- 
2.43.0


From 6528045658b2fa71d6528a2483d3638d661c376b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 41/59] fix: kd_tree search visits points outside the range

---
 geometrix/algorithm/kd_tree.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/kd_tree.hpp b/geometrix/algorithm/kd_tree.hpp
index 7d23cfe..93d181e 100644
--- a/geometrix/algorithm/kd_tree.hpp
+++ b/geometrix/algorithm/kd_tree.hpp
@@ -67,7 +67,10 @@ namespace geometrix {
         void search( const axis_aligned_bounding_box<T>& range, Visitor&& visitor, const NumberComparisonPolicy& compare ) const
         {
             if( m_pLeaf )
-                visitor( *m_pLeaf );
+            {
+                if( range.intersects( *m_pLeaf, compare ) )
+                    visitor( *m_pLeaf );
+            }
             else
                 search<0>( range, visitor, compare );
         }
@@ -163,7 +166,8 @@ namespace geometrix {
         {
             if( m_pLeaf )
             {
-                visitor( *m_pLeaf );
+                if( range.intersects( *m_pLeaf, compare ) )
+                    visitor( *m_pLeaf );
                 return;
             }
 
-- 
2.43.0


From 52861acf73e95090b6c1da4434bcccf01fa43e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 42/59] fix: node_bsp_tree_2d locate_point ignores the edges
 behind a splitting line through the point

---
 geometrix/algorithm/node_bsp_tree_2d.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/node_bsp_tree_2d.hpp b/geometrix/algorithm/node_bsp_tree_2d.hpp
index 8726e01..819d79a 100644
--- a/geometrix/algorithm/node_bsp_tree_2d.hpp
+++ b/geometrix/algorithm/node_bsp_tree_2d.hpp
@@ -545,7 +545,11 @@ namespace geometrix {
 
             if( m_positiveChild != 0 )
             {
-                return m_positiveChild->locate_point( point, compare );
+                //! The edges which touch the splitting line without lying on it may be on either side of it.
+                point_location_classification location = m_positiveChild->locate_point( point, compare );
+                if( location == e_boundary || m_negativeChild == 0 )
+                    return location;
+                return m_negativeChild->locate_point( point, compare ) == e_boundary ? e_boundary : location;
             }
             else if( m_negativeChild != 0 )
             {
-- 
2.43.0


From 5bb6b9c9da70cc94719cc78afc84e156ca53343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 43/59] fix: painters_traversal does not compile for lvalue
 visitors

---
 geometrix/algorithm/node_bsp_tree_2d.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/node_bsp_tree_2d.hpp b/geometrix/algorithm/node_bsp_tree_2d.hpp
index 819d79a..ba13286 100644
--- a/geometrix/algorithm/node_bsp_tree_2d.hpp
+++ b/geometrix/algorithm/node_bsp_tree_2d.hpp
@@ -27,6 +27,7 @@
 #include <boost/tuple/tuple.hpp>
 
 #include <algorithm>
+#include <type_traits>
 #include <vector>
 #include <stack>
 #include <set>
@@ -582,7 +583,7 @@ namespace geometrix {
     template <typename Point, typename Visitor, typename NumberComparisonPolicy>
     inline void node_bsp_tree_2d< Segment >::painters_traversal( const Point& point, Visitor&& visitor, const NumberComparisonPolicy& compare ) const
     {
-        BOOST_CONCEPT_ASSERT((VisitorConcept<Visitor,Segment>));
+        BOOST_CONCEPT_ASSERT((VisitorConcept<typename std::remove_reference<Visitor>::type,Segment>));
         typedef Segment segment_type;
 
         if( m_negativeChild == 0 && m_positiveChild == 0 )
-- 
2.43.0


From 7fb2a59370f78dfd6c3824d331bca6eb6baa06f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 44/59] fix: solid_leaf_bsp_tree splits again by edges already
 on the plane and calls the extensions of edges boundary

---
 geometrix/algorithm/solid_leaf_bsp_tree.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geometrix/algorithm/solid_leaf_bsp_tree.hpp b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
index d564fff..ca39dac 100644
--- a/geometrix/algorithm/solid_leaf_bsp_tree.hpp
+++ b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
@@ -459,6 +459,9 @@ namespace geometrix {
 
                     coplanarIndices.push_back(sIndices[i]);
 
+                    //! The splitting plane already accounts for this simplex.
+                    usedBits.set(i);
+
                     //! Attempt to push according to the normal of the smplex.
                     auto smplxPlane = m_planes[sIndices[i]];
                     auto smplxNormal = plane_access::get_normal_vector(smplxPlane);
-- 
2.43.0


From a0995c7594ce692b84a60e563ac87045dce2ace3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 45/59] fix: solid_leaf_bsp_tree rays leaving a plane visit the
 space behind it

---
 geometrix/algorithm/solid_leaf_bsp_tree.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/solid_leaf_bsp_tree.hpp b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
index ca39dac..429b298 100644
--- a/geometrix/algorithm/solid_leaf_bsp_tree.hpp
+++ b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
@@ -665,7 +665,9 @@ namespace geometrix {
                     if (denom != constants::zero<decltype(denom)>())
                     {
                         auto t = dist / denom;
-                        if (constants::zero<length_t>() <= t && t <= tmax)
+                        //! A ray which starts on the plane and heads to the front never visits the back.
+                        bool isLeavingPlane = dist == constants::zero<length_t>() && denom > constants::zero<decltype(denom)>();
+                        if (constants::zero<length_t>() <= t && t <= tmax && !isLeavingPlane)
                         {
                             if (t >= tmin)
                             {
-- 
2.43.0


From c6c256cfddbb76f949a5ccaab14ab64f5f6184d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 46/59] fix: solid_leaf_bsp_tree loses the simplex hit where
 several planes meet

---
 geometrix/algorithm/solid_leaf_bsp_tree.hpp | 26 +++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/geometrix/algorithm/solid_leaf_bsp_tree.hpp b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
index 429b298..ec5a679 100644
--- a/geometrix/algorithm/solid_leaf_bsp_tree.hpp
+++ b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
@@ -638,6 +638,29 @@ namespace geometrix {
             return minIndex;
         }
 
+        //! Find the simplex whose hit is nearest to the distance thit along the ray.
+        template <typename Point, typename Vector, typename NumberComparisonPolicy>
+        index_type find_hit_nearest(const Point& p, const Vector& d, const length_type& thit, const NumberComparisonPolicy& cmp) const
+        {
+            auto minDiff = (std::numeric_limits<length_type>::max)();
+            length_type t;
+            index_type minIndex = undefined_index::value;
+            for (index_type i = 0; i < m_simplices.size(); ++i)
+            {
+                if (bsp_detail::ray_simplex_intersect(p, d, m_simplices[i], t, cmp))
+                {
+                    length_type diff = t < thit ? thit - t : t - thit;
+                    if (diff < minDiff)
+                    {
+                        minDiff = diff;
+                        minIndex = i;
+                    }
+                }
+            }
+
+            return minIndex;
+        }
+
         //! Intersect ray/segment R(t)=p+t*d, tmin <= t <= tmax, against bsp tree
         //! ’node’, returning distance along the ray thit of first intersection with a solid leaf, if any
         template <typename Point, typename Vector, typename NumberComparisonPolicy>
@@ -695,6 +718,9 @@ namespace geometrix {
 						if (!minIndices.empty() || !onlyBorder)
 						{
 							auto sIndex = find_closest_hit(p, d, minIndices, cmp);
+							//! When several planes meet at the hit, the last one crossed need not be that of a simplex which is hit.
+							if (sIndex == undefined_index::value && !minIndices.empty())
+								sIndex = find_hit_nearest(p, d, tmin, cmp);
 							return solid_bsp_ray_tracing_result<length_t>(true, tmin, sIndex);
 						}
 
-- 
2.43.0


From 44885575a399c4cf6618bbfd380ac58313076d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 47/59] fix: bounding_box_intersection names a trait that does
 not exist and does not compile

---
 geometrix/algorithm/bounding_box_intersection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/bounding_box_intersection.hpp b/geometrix/algorithm/bounding_box_intersection.hpp
index 486326b..4b9d62b 100644
--- a/geometrix/algorithm/bounding_box_intersection.hpp
+++ b/geometrix/algorithm/bounding_box_intersection.hpp
@@ -22,7 +22,7 @@ namespace geometrix {
     template <typename NumberComparisonPolicy, typename Point>
     inline bool bounding_box_intersection( const Point& p1, const Point& p2, const Point& p3, const Point& p4, const NumberComparisonPolicy& compare ) 
     {
-        typedef typename geometric_traits<Point>::coordinate_type coordinate_type;
+        typedef typename geometric_traits<Point>::arithmetic_type coordinate_type;
         BOOST_CONCEPT_ASSERT((Point2DConcept<Point>));
 
         coordinate_type xmax1, xmax2, ymax1, ymax2, xmin1, xmin2, ymin1, ymin2;
-- 
2.43.0


From 311c3b24a01f806ffb16edb23c63acaf32741cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 48/59] fix: copies and moves of doubly_connected_edge_list
 lose the component graph

---
 geometrix/algorithm/doubly_connected_edge_list.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/doubly_connected_edge_list.hpp b/geometrix/algorithm/doubly_connected_edge_list.hpp
index 37ce2f1..6550b54 100644
--- a/geometrix/algorithm/doubly_connected_edge_list.hpp
+++ b/geometrix/algorithm/doubly_connected_edge_list.hpp
@@ -79,6 +79,7 @@ namespace geometrix
 		doubly_connected_edge_list(const doubly_connected_edge_list& other)
 			: m_pointVertexMap(other.m_pointVertexMap)
 			, m_halfEdgeList(other.m_halfEdgeList)
+			, m_componentGraph(other.m_componentGraph)
 			, m_polygons(other.m_polygons)
 			, m_polylines(other.m_polylines)
 			, m_compare(other.m_compare)
@@ -87,6 +88,7 @@ namespace geometrix
 		doubly_connected_edge_list(doubly_connected_edge_list&& other)
 			: m_pointVertexMap(std::move(other.m_pointVertexMap))
 			, m_halfEdgeList(std::move(other.m_halfEdgeList))
+			, m_componentGraph(std::move(other.m_componentGraph))
 			, m_polygons(std::move(other.m_polygons))
 			, m_polylines(std::move(other.m_polylines))
 			, m_compare( other.m_compare)
@@ -226,6 +228,7 @@ namespace geometrix
 		{
 			m_pointVertexMap = std::move(other.m_pointVertexMap);
 			m_halfEdgeList = std::move(other.m_halfEdgeList);
+			m_componentGraph = std::move(other.m_componentGraph);
 			m_polygons = std::move(other.m_polygons);
 			m_polylines = std::move(other.m_polylines);
 			m_compare = other.m_compare;
@@ -236,6 +239,7 @@ namespace geometrix
 		{
 			m_pointVertexMap = other.m_pointVertexMap;
 			m_halfEdgeList = other.m_halfEdgeList;
+			m_componentGraph = other.m_componentGraph;
 			m_polygons = other.m_polygons;
 			m_polylines = other.m_polylines;
 			m_compare = other.m_compare;
-- 
2.43.0


From b4add59f3d28308b07568bf6e745acd8bad52ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 49/59] fix: visible_vertices_mesh_search circles around
 interior vertices for ever

---
 geometrix/algorithm/visible_vertices_mesh_search.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/visible_vertices_mesh_search.hpp b/geometrix/algorithm/visible_vertices_mesh_search.hpp
index 2f9751f..8666ae1 100644
--- a/geometrix/algorithm/visible_vertices_mesh_search.hpp
+++ b/geometrix/algorithm/visible_vertices_mesh_search.hpp
@@ -152,11 +152,13 @@ namespace geometrix
 				
 				if (!allAround)
 				{
-					vecLo = is_vector_between(item.lo, item.hi, vecLo, false, cmp) ? vecLo : item.lo;
-					vecHi = is_vector_between(item.lo, item.hi, vecHi, false, cmp) ? vecHi : item.hi;
+					vecLo = is_vector_between(item.lo, item.hi, vecLo, true, cmp) ? vecLo : item.lo;
+					vecHi = is_vector_between(item.lo, item.hi, vecHi, true, cmp) ? vecHi : item.hi;
 				}
 
-				if (get_orientation(vecHi, vecLo, cmp) == geometrix::oriented_left)
+				//! A cone without width sees nothing more and would circle around the vertex which bounds it.
+				auto orientation = get_orientation(vecHi, vecLo, cmp);
+				if (orientation == geometrix::oriented_left || (orientation == geometrix::oriented_collinear && dot_product(vecHi, vecLo) > constants::zero<decltype(dot_product(vecHi, vecLo))>()))
 					return boost::none;
 			}
 			else
-- 
2.43.0


From 1028d4bd68f6b749b6365ee42911044b22639c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 50/59] fix: mesh_2d get_random_position runs off the triangles
 when the weights sum short of one

---
 geometrix/algorithm/mesh_2d.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geometrix/algorithm/mesh_2d.hpp b/geometrix/algorithm/mesh_2d.hpp
index bf3743d..af16f1b 100644
--- a/geometrix/algorithm/mesh_2d.hpp
+++ b/geometrix/algorithm/mesh_2d.hpp
@@ -211,6 +211,9 @@ namespace geometrix
             using std::sqrt;
 
             auto it(std::lower_bound(m_integral.begin(), m_integral.end(), rT));
+            //! The last sum may fall short of one to rounding.
+            if (it == m_integral.end())
+                --it;
             std::size_t iTri = std::distance(m_integral.begin(), it);
             GEOMETRIX_ASSERT(iTri < m_triangles.size());
             const auto& points = get_triangle_vertices( iTri );
-- 
2.43.0


From 5438ea897c2327e2c852a66465f147ee1b609142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 51/59] fix: fixed_point conversion to floating point types
 dropped the fraction; binary run time scale divided by its exponent; negative
 values were left shifted; n - x and n / x ignored the scale of a run time
 scaled x

---
 geometrix/numeric/fixed_point.hpp        |  4 +--
 geometrix/numeric/fixed_point_traits.hpp | 36 +++++++++++++++++-------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/geometrix/numeric/fixed_point.hpp b/geometrix/numeric/fixed_point.hpp
index 02dafe6..8b020f2 100644
--- a/geometrix/numeric/fixed_point.hpp
+++ b/geometrix/numeric/fixed_point.hpp
@@ -398,7 +398,7 @@ namespace geometrix {
     template<typename Traits, typename U, typename std::enable_if<std::is_arithmetic<U>::value, int>::type = 0>
     inline fixed_point<Traits> operator -(const U& lhs, const fixed_point<Traits>& rhs)
     {
-        return fixed_point<Traits>(lhs) -= rhs;
+        return fixed_point<Traits>(lhs, rhs) -= rhs;
     }
     template<typename Traits, typename U, typename std::enable_if<std::is_arithmetic<U>::value, int>::type = 0>
     inline fixed_point<Traits> operator /(fixed_point<Traits> lhs, const U& rhs)
@@ -409,7 +409,7 @@ namespace geometrix {
     template<typename Traits, typename U, typename std::enable_if<std::is_arithmetic<U>::value, int>::type = 0>
     inline fixed_point<Traits> operator /(const U& lhs, const fixed_point<Traits>& rhs)
     {
-        return fixed_point<Traits>(lhs) /= rhs;
+        return fixed_point<Traits>(lhs, rhs) /= rhs;
     }
 
     template<typename Traits>
diff --git a/geometrix/numeric/fixed_point_traits.hpp b/geometrix/numeric/fixed_point_traits.hpp
index 52f30ab..e1e5280 100644
--- a/geometrix/numeric/fixed_point_traits.hpp
+++ b/geometrix/numeric/fixed_point_traits.hpp
@@ -33,6 +33,22 @@
 
 namespace geometrix {
 
+    namespace detail
+    {
+        //! Divide by the scale factor keeping the fraction when converting to a floating point type.
+        template <typename T, typename B, typename S>
+        BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type divide_by_scale( B v, S factor )
+        {
+            return static_cast<T>( v ) / static_cast<T>( factor );
+        }
+
+        template <typename T, typename B, typename S>
+        BOOST_CONSTEXPR typename boost::disable_if< boost::is_float<T>, T >::type divide_by_scale( B v, S factor )
+        {
+            return boost::numeric_cast<T>( widen_cast( v ) / factor );
+        }
+    }//! namespace detail;
+
     template <int Radix, int Exp>
     struct generic_compile_time_scale_policy
     {
@@ -52,7 +68,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / power_c<Radix, Exp>::value );
+            return detail::divide_by_scale<T>( v, power_c<Radix, Exp>::value );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -66,7 +82,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v, int ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / integral_pow( Radix, Exp ) );
+            return detail::divide_by_scale<T>( v, integral_pow( Radix, Exp ) );
         }
     };
 
@@ -92,7 +108,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / integral_pow( Radix, m_scale ) );
+            return detail::divide_by_scale<T>( v, integral_pow( Radix, m_scale ) );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -106,7 +122,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v, int Exp ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / integral_pow( Radix, Exp ) );
+            return detail::divide_by_scale<T>( v, integral_pow( Radix, Exp ) );
         }
 
         int m_scale;
@@ -123,7 +139,7 @@ namespace geometrix {
         template <typename B, typename T>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_integral<T>, B >::type scale_up( T v ) const
         {
-            return boost::numeric_cast<B>( widen_cast( v ) << Exp );
+            return boost::numeric_cast<B>( widen_cast( v ) * ( static_cast<typename widen<T>::type>( 1 ) << Exp ) );
         }
 
         template <typename B, typename T>
@@ -142,7 +158,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / power_c<2, Exp>::value );
+            return detail::divide_by_scale<T>( v, power_c<2, Exp>::value );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -168,7 +184,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v, int) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / power_c<2, Exp>::value );
+            return detail::divide_by_scale<T>( v, power_c<2, Exp>::value );
         }
     };
 
@@ -185,7 +201,7 @@ namespace geometrix {
         template <typename B, typename T>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_integral<T>, B >::type scale_up( T v ) const
         {
-            return boost::numeric_cast<B>( widen_cast( v ) << m_scale );
+            return boost::numeric_cast<B>( widen_cast( v ) * ( static_cast<typename widen<T>::type>( 1 ) << m_scale ) );
         }
 
         template <typename B, typename T>
@@ -205,7 +221,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / m_scale );
+            return detail::divide_by_scale<T>( v, integral_pow( 2, m_scale ) );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -232,7 +248,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v, int Exp ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / Exp );
+            return detail::divide_by_scale<T>( v, integral_pow( 2, Exp ) );
         }
 
         int m_scale;
-- 
2.43.0


From 25373ca35522b67c22f15e9c26928ebb913b7bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:46 +0000
Subject: [PATCH 52/59] fix: fixed_point scaled integers in their own type:
 fixed_point<long,10^6>(2148) from an int overflowed

---
 geometrix/numeric/fixed_point.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/numeric/fixed_point.hpp b/geometrix/numeric/fixed_point.hpp
index 8b020f2..3ac4a3b 100644
--- a/geometrix/numeric/fixed_point.hpp
+++ b/geometrix/numeric/fixed_point.hpp
@@ -59,14 +59,14 @@ namespace geometrix {
         template <typename T, typename std::enable_if<std::is_arithmetic<typename std::decay<T>::type>::value, int>::type = 0>
         BOOST_CONSTEXPR format_type convert_to_format(T value, boost::false_type) const
         {
-            return boost::numeric_cast<format_type>( rounding_policy::round( scale_policy::template scale_up<T>( value ) ) );
+            return boost::numeric_cast<format_type>( rounding_policy::round( scale_policy::template scale_up<typename widen<T>::type>( value ) ) );
         }
 
         //! Compile time.
         template <typename T, typename std::enable_if<std::is_arithmetic<typename std::decay<T>::type>::value, int>::type = 0>
         BOOST_CONSTEXPR format_type convert_to_format(T value, boost::true_type) const
         {
-            return boost::numeric_cast<format_type>( rounding_policy::round( scale_policy::template scale_up<T>( value ) ) );
+            return boost::numeric_cast<format_type>( rounding_policy::round( scale_policy::template scale_up<typename widen<T>::type>( value ) ) );
         }
 
         //! Conversion from another fixed_point type with possibly different traits.
-- 
2.43.0


From 68614b24afd0083adcf3d790af13e1f40e400ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 53/59] fix: random_index_generator returned maxIndex although
 documented as [0,maxIndex); random_element did not compile for containers

---
 geometrix/utility/random_generator.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geometrix/utility/random_generator.hpp b/geometrix/utility/random_generator.hpp
index 4c92a77..08f081a 100644
--- a/geometrix/utility/random_generator.hpp
+++ b/geometrix/utility/random_generator.hpp
@@ -10,6 +10,7 @@
 #define GEOMETRIX_RANDOM_GENERATOR_HPP
 
 #include <boost/random.hpp>
+#include <type_traits>
 
 namespace geometrix {
     template <typename RandomNumberGenerator>
@@ -19,13 +20,13 @@ namespace geometrix {
 
         random_index_generator( std::size_t maxIndex, unsigned long seed = 42 )
             : m_randomNumberGenerator(seed)
-            , m_range( std::size_t(0), maxIndex )
+            , m_range( std::size_t(0), maxIndex ? maxIndex - 1 : 0 )
             , m_generator( m_randomNumberGenerator, m_range )
         {}
         
         random_index_generator( std::size_t maxIndex, const RandomNumberGenerator& rng )
             : m_randomNumberGenerator(rng)
-            , m_range( std::size_t(0), maxIndex )
+            , m_range( std::size_t(0), maxIndex ? maxIndex - 1 : 0 )
             , m_generator( m_randomNumberGenerator, m_range )
         {}
 
@@ -102,7 +103,7 @@ namespace geometrix {
     };
     
     template <typename Range, typename RNG>
-    inline typename boost::range_iterator<Range>::type random_element(const Range& r, const random_index_generator<RNG>& rng)
+    inline typename boost::range_iterator<typename std::remove_reference<Range>::type>::type random_element(Range&& r, const random_index_generator<RNG>& rng)
     {
         auto it = boost::begin(r);
         std::advance(it, rng());
-- 
2.43.0


From 6f7eee705f7eebdcfdb2892785ae89e8913e4a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:49 +0000
Subject: [PATCH 54/59] fix: eberly_segment_segment_distance_sqrd returned the
 distance of unrelated points unless the segments cross in their interiors

---
 .../eberly_segment_segment_distance.hpp       | 256 ++----------------
 1 file changed, 19 insertions(+), 237 deletions(-)

diff --git a/geometrix/algorithm/distance/eberly_segment_segment_distance.hpp b/geometrix/algorithm/distance/eberly_segment_segment_distance.hpp
index 0487dea..b93255b 100644
--- a/geometrix/algorithm/distance/eberly_segment_segment_distance.hpp
+++ b/geometrix/algorithm/distance/eberly_segment_segment_distance.hpp
@@ -48,249 +48,31 @@ namespace geometrix {
         auto v2 = p4 - p3;
 
         auto a = point_point_distance_sqrd(p1, p2);
-        auto b = dot_product(-v1, v2);
+        auto b = dot_product(v1, v2);
         auto c = point_point_distance_sqrd(p3, p4);
 
         auto vd = p1 - p3;
         auto d = dot_product(v1, vd);
-        auto e = dot_product(-v2, vd);
-        auto det = exterior_product_area(v1, v2);
-        auto s = b*e - c*d;
-        auto t = b*d - a*e;
+        auto e = dot_product(v2, vd);
+        auto det = a * c - b * b;
 
-        if (det == 0)
-        {
-            if (b > 0)
-            {
-                if (d >= 0)
-                {
-                    s = 0;
-                    t = 0;
-                }
-                else if (-d <= a)
-                {
-                    s = -d / a;
-                    t = 0;
-                }
-                else
-                {
-                    s = 1;
-                    auto tmp= a + d;
-                    if (-tmp >= b)
-                        t = 1;
-                    else
-                        t = -tmp / b;
-                }
-            }
-            else
-            {
-                if (-d >= a)
-                {
-                    s = 1;
-                    t = 0;
-                }
-                else if (d <= 0)
-                {
-                    s = -d / a;
-                    t = 0;
-                }
-                else
-                {
-                    s = 0;
-                    auto tmp= a + d;
-                    if (-tmp >= b)
-                        t = 1;
-                    else
-                        t = -tmp / b;
-                }
-            }
-        }
-        else
+        //! The closest points are p1 + s * v1 and p3 + t * v2. Minimize over s on the line of s1, project onto s2 and
+        //! re-project onto s1 where t had to be clamped.
+        using parameter_t = decltype(d / a);
+        const parameter_t zero = 0;
+        const parameter_t one = 1;
+        auto clamped = [&](const parameter_t& v) { return v < zero ? zero : (one < v ? one : v); };
+
+        parameter_t s = zero;
+        parameter_t t = zero;
+        if (det > 0)
+            s = clamped((b * e - c * d) / det);
+        if (c > 0)
+            t = (b * s + e) / c;
+        if (!(c > 0) || t < zero || one < t)
         {
-            if (s >= 0)
-            {
-                if (s <= det)
-                {
-                    if (t >= 0)
-                    {
-                        if (t <= det)
-                        {
-                            //! Region 0
-                            auto invDet= 1.0 / det;
-                            s *= invDet;
-                            t *= invDet;
-                        }
-                        else
-                        {
-                            //Region 3
-                            s = 1.0;
-                            auto tmp= b + e;
-                            if (tmp > 0)
-                                t = 0;
-                            else if (-tmp > c)
-                                t = 1;
-                            else
-                                t = -tmp / c;
-                        }
-                    }
-                    else
-                    {
-                        //Region 7
-                        s = 1.0;
-                        auto tmp= b + e;
-                        if (tmp > 0)
-                            t = 0;
-                        else if (-tmp > c)
-                            t = 1;
-                        else
-                            t = -tmp / c;
-                    }
-                }
-                else
-                {
-                    if (t >= 0)
-                    {
-                        if (t <= det)
-                        {
-                            //Region 1
-                            s = 1.0;
-                            auto tmp= b + e;
-                            if (tmp > 0)
-                                t = 0;
-                            else if (-tmp > c)
-                                t = 1;
-                            else
-                                t = -tmp / c;
-                        }
-                        else
-                        {
-                            //Region 2
-                            auto tmp= b + d;
-                            if (-tmp < a)
-                            {
-                                t = 1;
-                                if (tmp > 0)
-                                    s = 0;
-                                else
-                                    s = -tmp / a;
-                            }
-                            else
-                            {
-                                s = 1;
-                                auto tmp2= b + e;
-                                if (-tmp2 < c)
-                                {
-                                    if (tmp2 > 0)
-                                        t = 0;
-                                    else
-                                        t = -tmp2 / c;
-                                }
-                                else
-                                    t = 1;
-                            }
-                        }
-                    }
-                    else
-                    {
-                        //Region 8
-                        auto tmp= b + d;
-                        if (-tmp < a)
-                        {
-                            t = 1;
-                            if (tmp > 0)
-                                s = 0;
-                            else
-                                s = -tmp / a;
-                        }
-                        else
-                        {
-                            s = 1;
-                            auto tmp2= b + e;
-                            if (-tmp2 < c)
-                            {
-                                if (tmp2 > 0)
-                                    t = 0;
-                                else
-                                    t = -tmp2 / c;
-                            }
-                            else
-                                t = 1;
-                        }
-                    }
-                }
-            }
-            else
-            {
-                if (t >= 0)
-                {
-                    if (t <= det)
-                    {
-                        //Region 5
-                        s = 1.0;
-                        auto tmp= b + e;
-                        if (tmp > 0)
-                            t = 0;
-                        else if (-tmp > c)
-                            t = 1;
-                        else
-                            t = -tmp / c;
-                    }
-                    else
-                    {
-                        //Region 4
-                        auto tmp= b + d;
-                        if (-tmp < a)
-                        {
-                            t = 1;
-                            if (tmp > 0)
-                                s = 0;
-                            else
-                                s = -tmp / a;
-                        }
-                        else
-                        {
-                            s = 1;
-                            auto tmp2= b + e;
-                            if (-tmp2 < c)
-                            {
-                                if (tmp2 > 0)
-                                    t = 0;
-                                else
-                                    t = -tmp2 / c;
-                            }
-                            else
-                                t = 1;
-                        }
-                    }
-                }
-                else
-                {
-                    //Region 6
-                    auto tmp = b + d;
-                    if (-tmp < a)
-                    {
-                        t = 1;
-                        if (tmp > 0)
-                            s = 0;
-                        else
-                            s = -tmp / a;
-                    }
-                    else
-                    {
-                        s = 1;
-                        auto tmp2 = b + e;
-                        if (-tmp2 < c)
-                        {
-                            if (tmp2 > 0)
-                                t = 0;
-                            else
-                                t = -tmp2 / c;
-                        }
-                        else
-                            t = 1;
-                    }
-                }
-            }
+            t = clamped(t);
+            s = a > 0 ? clamped((b * t - d) / a) : zero;
         }
 
         if (s == 0)
-- 
2.43.0


From c72dbf6c48c0e9d8c0eb6faf05d91b171594c584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:36 +0000
Subject: [PATCH 55/59] fix: oriented_intersection missed collinear segments
 overlapping up to a common end and ends touching the inside of the other
 segment

---
 geometrix/algorithm/orientation.hpp | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/geometrix/algorithm/orientation.hpp b/geometrix/algorithm/orientation.hpp
index 9f640a6..f433488 100644
--- a/geometrix/algorithm/orientation.hpp
+++ b/geometrix/algorithm/orientation.hpp
@@ -73,30 +73,15 @@ namespace geometrix {
 		}
 		else 
 		{
-			//! At this point, the points are collinear and thus either overlap or intersect soley at an endpoint.
+			//! At this point, an end of p1-p2 is collinear with p3-p4 and thus they either overlap or intersect soley at an endpoint.
             bool p3isBetweenp1p2 = is_between( p1, p2, p3, false, cmp );
             bool p4isBetweenp1p2 = is_between( p1, p2, p4, false, cmp );
-
-            if ( p3isBetweenp1p2 && p4isBetweenp1p2 )
-                return e_overlapping;
-
             bool p1isBetweenp3p4 = is_between( p3, p4, p1, false, cmp );
             bool p2isBetweenp3p4 = is_between( p3, p4, p2, false, cmp );
 
-            if ( p1isBetweenp3p4 && p2isBetweenp3p4 )
-                return e_overlapping;
-
-            if( p3isBetweenp1p2 && p2isBetweenp3p4 )
-                return e_overlapping;
-
-            if( p3isBetweenp1p2 && p1isBetweenp3p4 )
-                return e_overlapping;
-
-            if( p4isBetweenp1p2 && p2isBetweenp3p4 )
-                return e_overlapping;
-
-            if( p4isBetweenp1p2 && p1isBetweenp3p4 )
-                return e_overlapping;
+            //! An end strictly inside the other segment: they overlap if collinear, else that end touches.
+            if (p3isBetweenp1p2 || p4isBetweenp1p2 || p1isBetweenp3p4 || p2isBetweenp3p4)
+                return p1OrientationLine34 == p2OrientationLine34 ? e_overlapping : e_endpoint;
 
             bool originEqualsp3 = numeric_sequence_equals( p1, p3, cmp );
             bool destinationEqualsp4 = numeric_sequence_equals( p2, p4, cmp );
-- 
2.43.0


From 22ec342f26a4f52dd5364e1cc7e0042516cad5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:07 +0000
Subject: [PATCH 56/59] fix: polygon_with_holes set_outer/add_hole moved from
 polygons passed by non-const reference

A non-const lvalue binds to the forwarding-reference overloads, which used
std::move and so emptied the caller's polygon. Forward instead.
---
 geometrix/primitive/polygon_with_holes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/primitive/polygon_with_holes.hpp b/geometrix/primitive/polygon_with_holes.hpp
index a69bb53..4c75387 100644
--- a/geometrix/primitive/polygon_with_holes.hpp
+++ b/geometrix/primitive/polygon_with_holes.hpp
@@ -94,7 +94,7 @@ namespace geometrix {
         template <typename OuterPolygon>
         void set_outer(OuterPolygon&& outer)
         {
-            m_outer = std::move(outer);
+            m_outer = std::forward<OuterPolygon>(outer);
         }
 
         template <typename OuterPolygon>
@@ -116,7 +116,7 @@ namespace geometrix {
         template <typename HolePolygon>
         void add_hole(HolePolygon&& outer)
         {
-            m_holes.emplace_back(std::move(outer));
+            m_holes.emplace_back(std::forward<HolePolygon>(outer));
         }
 
         template <typename HolePolygon>
-- 
2.43.0


From 517e660ce457bf82824b0b3a16370345c2f7f799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:33 +0000
Subject: [PATCH 57/59] fix: coordinate_less_compare ordered coordinates by
 greater-than

---
 geometrix/utility/utilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/utility/utilities.hpp b/geometrix/utility/utilities.hpp
index 7cfa733..da611ff 100644
--- a/geometrix/utility/utilities.hpp
+++ b/geometrix/utility/utilities.hpp
@@ -764,7 +764,7 @@ namespace geometrix {
 
         bool operator() ( const CoordinateType& lhs, const CoordinateType& rhs ) const
         {
-            return m_compare.less_than( rhs, lhs );
+            return m_compare.less_than( lhs, rhs );
         }
 
         NumberComparisonPolicy m_compare;
-- 
2.43.0


From fa87e72d66ea4b4db5ada114e68199937e5c0211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:20 +0000
Subject: [PATCH 58/59] fix: random_segment_selector_policy could not be
 instantiated

---
 geometrix/algorithm/node_bsp_tree_2d.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/geometrix/algorithm/node_bsp_tree_2d.hpp b/geometrix/algorithm/node_bsp_tree_2d.hpp
index ba13286..45b829e 100644
--- a/geometrix/algorithm/node_bsp_tree_2d.hpp
+++ b/geometrix/algorithm/node_bsp_tree_2d.hpp
@@ -82,13 +82,9 @@ namespace geometrix {
             template <typename Range>
             output_geometry_type operator()( const Range& r ) const
             {
-                std::vector<input_geometry_type> sV( boost::begin( r ), boost::end( r ) );
-#ifdef STK_NO_CXX17_STD_SHUFFLE
-                std::random_shuffle( sV.begin(), sV.end(), m_rnd );
-#else
-                std::shuffle( sV.begin(), sV.end(), m_rnd );
-#endif
-                return *sV.begin();
+                auto it = boost::begin( r );
+                std::advance( it, m_rnd( static_cast<std::size_t>( boost::size( r ) ) ) );
+                return *it;
             }
 
             RandomIntegerGenerator m_rnd;
-- 
2.43.0


From b119f50813fbdede481689790337166f069d20af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:40 +0000
Subject: [PATCH 59/59] fix: 3D segment_segment_intersection ignored its
 comparison policy for collinear segments

---
 .../intersection/segment_segment_intersection.hpp        | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geometrix/algorithm/intersection/segment_segment_intersection.hpp b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
index e731a2e..16612df 100644
--- a/geometrix/algorithm/intersection/segment_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
@@ -11,6 +11,7 @@
 
 #include <geometrix/algorithm/linear_components_intersection.hpp>
 #include <geometrix/arithmetic/vector.hpp>
+#include <geometrix/tensor/is_null.hpp>
 #include <geometrix/algorithm/bounding_box_intersection.hpp>
 #include <geometrix/utility/utilities.hpp>
 #include <geometrix/numeric/constants.hpp>
@@ -261,7 +262,7 @@ namespace geometrix {
             else
             {
                 //! Parallel
-                if( !boost::fusion::all( v1 ^ (p3-p1), boost::lambda::_1 == constants::zero<length_t>() ) )
+                if( !is_null( vector<area_t, 3>( v1 ^ (p3-p1) ), cmp ) )
                     return e_non_crossing;
 
                 //! On the same line.
@@ -271,11 +272,11 @@ namespace geometrix {
                 dimensionless_t s1 = s0 + b / vLengthSqr ;
                 auto st = boost::minmax( s0, s1 ) ;
 
-                if( one < boost::get<0>(st) || zero > boost::get<1>(st) )
+                if( cmp.less_than( one, boost::get<0>(st) ) || cmp.greater_than( zero, boost::get<1>(st) ) )
                     return e_non_crossing;
-                else if( 1. > boost::get<0>(st) )
+                else if( cmp.greater_than( one, boost::get<0>(st) ) )
                 {
-                    if( 0. < boost::get<1>(st) )
+                    if( cmp.less_than( zero, boost::get<1>(st) ) )
                     {
                         if( 0. < boost::get<0>(st) )
                             iPoint[0] <<= p1 + boost::get<0>(st) * v1;
-- 
2.43.0

