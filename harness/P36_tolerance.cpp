// P36: the comparison policy the caller passes decides every verdict: configurations within its tolerance of a lattice configuration get the verdict
// of that configuration, and under an exact policy every verdict and value scales with the figure.
#include "gl.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/utility/point_angle_compare.hpp>
#include <geometrix/utility/vector_angle_compare.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/line_intersection.hpp>
#include <geometrix/algorithm/segment_intersection.hpp>
#include <geometrix/algorithm/bounding_box_intersection.hpp>
#include <geometrix/algorithm/bentley_ottmann_segment_intersection.hpp>
#include <geometrix/algorithm/doubly_connected_edge_list.hpp>
#include <geometrix/algorithm/is_segment_in_range.hpp>
#include <geometrix/algorithm/linear_components_intersection.hpp>
#include <geometrix/algorithm/classify_simplex_to_plane.hpp>
#include <geometrix/algorithm/eberly_triangle_aabb_intersection.hpp>
#include <geometrix/algorithm/cohen_sutherland_line_clipping.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_line_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/line_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/aabb_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_polygon_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp>
#include <geometrix/algorithm/point_sequence/is_polygon_simple.hpp>
#include <geometrix/algorithm/point_sequence/is_congruent.hpp>
#include <geometrix/algorithm/point_sequence/self_intersection.hpp>
#include <geometrix/algorithm/point_sequence/remove_collinear_points.hpp>
#include <geometrix/algorithm/point_sequence/find_subsequence.hpp>
#include <geometrix/algorithm/point_sequence/polygon_polygon_containment.hpp>
#include <geometrix/algorithm/point_sequence/polygon_polyline_containment.hpp>
#include <geometrix/algorithm/point_sequence/point_polyline_orientation.hpp>
#include <geometrix/algorithm/intersection/segment_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/circle_circle_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_capsule_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_plane_intersection.hpp>
#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
#include <geometrix/algorithm/distance/segment_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_polygon_distance.hpp>
#include <geometrix/algorithm/distance/segment_polyline_distance.hpp>
#include <geometrix/algorithm/distance/segment_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/polygon_polygon_distance.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/distance/point_polyline_distance.hpp>
#include <geometrix/algorithm/distance/point_polygon_distance.hpp>
#include <geometrix/algorithm/distance/point_aabb_distance.hpp>
#include <geometrix/algorithm/distance/aabb_aabb_distance.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
#include <geometrix/algorithm/point_sequence/polyline_offset.hpp>
#include <geometrix/algorithm/point_sequence/polyline_mid_point.hpp>
#include <geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp>
#include <geometrix/algorithm/point_sequence/clip_polyline_ends.hpp>
#include <geometrix/algorithm/intersection/sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_projects_outside_polygon.hpp>
#include <geometrix/algorithm/intersection/obb_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_separating_axis_convex_polygons.hpp>
#include <geometrix/algorithm/distance/polygon_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_obb_distance.hpp>
#include <geometrix/primitive/plane.hpp>
#include <geometrix/algorithm/intersection/segment_triangle_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_plane_intersection.hpp>
#include <geometrix/algorithm/distance/point_line_distance.hpp>
#include <geometrix/algorithm/kd_tree.hpp>
#include <geometrix/algorithm/median_partitioning_strategy.hpp>
#include <geometrix/algorithm/hyperplane_partition_policies.hpp>
#include <geometrix/algorithm/node_bsp_tree_2d.hpp>
#include <geometrix/algorithm/solid_leaf_bsp_tree.hpp>
#include <geometrix/algorithm/intersection/sphere_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_obb_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp>
#include <geometrix/algorithm/distance/point_obb_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/eberly_segment_segment_distance.hpp>
#include <geometrix/algorithm/segment_mid_point.hpp>
#include <geometrix/algorithm/point_sequence/curvature.hpp>
#include <geometrix/algorithm/point_sequence/polyline_split.hpp>
#include <map>
#include <set>
using namespace geometrix; using namespace gl; using vp::Case;
typedef std::vector<P2> Pts; typedef absolute_tolerance_comparison_policy<double> Abs; typedef direct_comparison_policy Direct;
// near: false for routines that use the policy for parallelism only
struct Ob { const char* n; long v; bool near; };
struct Val { const char* n; double v; int dim; int time; };
struct Out { std::vector<Ob> o; std::vector<Val> x; void operator()(const char* n, long v) { o.push_back(Ob{n, v, true}); } void scale(const char* n, long v) { o.push_back(Ob{n, v, false}); } void val(const char* n, double v, int dim, int time = 0) { x.push_back(Val{n, v, dim, time}); } void pt(const char* n, const P2& p) { val(n, p[0], 1); val(n, p[1], 1); } };
// every observer is a function of the figure and the policy only
template <class C> static void points(const Pts& p, const C& cmp, Out& o) {
    const P2 &A = p[0], &B = p[1], &X = p[2]; V2 u = B - A, v = X - A, w = p[3] - A;
    o("get_orientation", get_orientation(A, B, X, cmp)); o("get_orientation-vectors", get_orientation(u, v, cmp)); o("oriented_intersection", (long)oriented_intersection(A, B, X, p[3], cmp));
    o("is_between", is_between(A, B, X, true, cmp)); o("is_between-open", is_between(A, B, X, false, cmp)); o("is_collinear", is_collinear(A, B, X, cmp)); bool col = is_collinear(A, B, X, cmp); o("is_collinear_point_between", col && is_collinear_point_between(A, B, X, true, cmp)); o("is_collinear_point_between-open", col && is_collinear_point_between(A, B, X, false, cmp));
    o("is_vertical", is_vertical(A, B, cmp)); o("is_horizontal", is_horizontal(A, B, cmp)); o("is_vector_between", is_vector_between(u, v, w, true, cmp)); o("is_vector_between-open", is_vector_between(u, v, w, false, cmp));
    o("numeric_sequence_equals", numeric_sequence_equals(A, B, cmp)); o("lexicographically_less_than", lexicographically_less_than(A, B, cmp)); o("lexicographical_comparer", lexicographical_comparer<C>(cmp)(A, B)); o("reverse_lexicographical", reverse_lexicographical_point_compare<C>(cmp)(A, B)); o("dimension_compare-0", dimension_compare<0, C>(cmp)(A, B)); o("dimension_compare-1", dimension_compare<1, C>(cmp)(A, B));
    { lexicographical_comparer<C> lc(cmp); std::set<P2, lexicographical_comparer<C>> s(p.begin(), p.begin() + 5, lc); o("distinct-points", (long)s.size()); }
    o("point_in_triangle", point_in_triangle(p[3], A, B, X, cmp)); { axis_aligned_bounding_box<P2> a(P2(std::min(A[0], B[0]), std::min(A[1], B[1])), P2(std::max(A[0], B[0]), std::max(A[1], B[1]))), b(P2(std::min(X[0], p[3][0]), std::min(X[1], p[3][1])), P2(std::max(X[0], p[3][0]), std::max(X[1], p[3][1]))); o("aabb-intersects-point", a.intersects(X, cmp)); o("aabb-intersects", a.intersects(b, cmp)); o("aabb-contains", a.contains(b, cmp)); o("aabb_aabb_intersection", aabb_aabb_intersection(a, b, cmp)); o("bounding_box_intersection", bounding_box_intersection(A, B, X, p[3], cmp)); }
    { vector_angle_compare<C> vc(u[0] != 0 || u[1] != 0 ? u : V2(1, 0), cmp); o.scale("vector_angle_compare", vc(v, w)); point_angle_compare<C> pc(A, cmp); o.scale("point_angle_compare", pc(X, p[3])); }
    { kd_tree<P2> t(Pts(p.begin(), p.end()), cmp, median_partitioning_strategy()); long n = 0; t.search(axis_aligned_bounding_box<P2>(P2(std::min(X[0], p[3][0]), std::min(X[1], p[3][1])), P2(std::max(X[0], p[3][0]), std::max(X[1], p[3][1]))), [&](const P2&) { ++n; }, cmp); o("kd_tree-search", n); }
    o.val("point_point_distance", point_point_distance(A, B), 1);
}
template <class C> static void linear(const Pts& p, const C& cmp, Out& o) { // p[0] != p[1], p[2] != p[3] on the lattice
    const P2 &A = p[0], &B = p[1], &D = p[2], &E = p[3]; S2 s(A, B), t(D, E); P2 x[2], y; V2 d = normalize(B - A);
    { intersection_type r = segment_segment_intersection(s, t, x, cmp); o("segment_segment_intersection", (long)r); if (r == e_crossing) o.pt("segment_segment_intersection-point", x[0]); intersection_type q = line_line_intersect(A, B, D, E, y, cmp); o("line_line_intersect", (long)q); if (q == e_crossing) o.pt("line_line_intersect-point", y); q = line_segment_intersect(A, B, D, E, y, cmp); o("line_segment_intersect", (long)q); }
    { P2 z[2]; V2 u = B - A, n(-u[1], u[0]); o.scale("is_segment_in_range_2d", (bool)is_segment_in_range_2d(t, u, n, A, z, cmp)); typedef segment_interval_compare<C> IC; std::set<S2, IC> q((IC(cmp))); collinear_segment_union(q, s, cmp); collinear_segment_union(q, S2(A + 2.0 * u, A + 3.0 * u), cmp); collinear_segment_union(q, S2(B, B + 0.5 * u), cmp); o("collinear_segment_union", (long)q.size()); collinear_segment_difference(q, S2(A + 0.25 * u, A + 0.5 * u), cmp); collinear_segment_difference(q, S2(A + 0.75 * u, A + 1.5 * u), cmp); o("collinear_segment_difference", (long)q.size()); for (auto& e : q) { o.pt("collinear_segment_difference-start", e.get_start()); o.pt("collinear_segment_difference-end", e.get_end()); } }
    { double k; o("ray_segment_intersection", (long)ray_segment_intersection(A, d, D, E, cmp)); if (ray_segment_intersection(A, d, D, E, k, x, cmp) == e_crossing) { y = x[0]; o.val("ray_segment_intersection-length", k, 1); o.pt("ray_segment_intersection-point", y); } line<P2> l(D, V2(normalize(E - D))); auto h = ray_line_intersection(A, d, l, k, y, cmp); o("ray_line_intersection", h.is_intersecting()); o("ray_line_intersection-overlap", h.is_overlapping()); if (h.is_intersecting() && !h.is_overlapping()) o.val("ray_line_intersection-length", k, 1); o("classify_point_to_plane", (long)classify_point_to_plane(A, l, cmp)); o("classify_simplex_to_plane", (long)classify_simplex_to_plane(s, l, cmp)); }
}
template <class C> static void boxes(const Pts& p, const C& cmp, Out& o) { // p[0] and p[1] the corners of a proper box, p[2] != p[3]
    axis_aligned_bounding_box<P2> b(p[0], p[1]); const P2 &A = p[2], &B = p[3]; double k0, k1; P2 x, y; V2 d = normalize(B - A);
    { G2 g{p[2], p[3], p[4]}, h{p[0], P2(p[1][0], p[0][1]), p[1]}; if (get_signed_area(g) < 0) std::swap(g[1], g[2]); o.scale("convex_polygons_intersection", convex_polygons_intersection(g, h, cmp)); double f, l; bool m = moving_convex_polygons_intersection(g, V2(B - p[0]), h, V2(A - p[1]), 4.0, f, l, cmp); o.scale("moving_convex_polygons_intersection", m); if (m) { o.val("moving_convex_polygons_intersection-first", f, 0); o.val("moving_convex_polygons_intersection-last", l, 0); } }
    { V2 e(d), n(-d[1], d[0]); double r = point_point_distance(p[0], p[1]), v = point_point_distance(A, B); oriented_bounding_box<P2, V2> u(p[4], e, n, r, v), w(p[0], V2(1, 0), V2(0, 1), r / 2, v / 2); o.scale("obb_obb_intersection", obb_obb_intersection(u, w, cmp)); o.val("segment_obb_distance", segment_obb_distance(S2(p[0], p[1]), u, cmp), 1); }
    { P2 z[2] = {P2(0, 0), P2(0, 0)}; std::size_t n = segment_triangle_intersect(p[0], p[1], p[2], p[3], p[4], z, cmp); o.scale("segment_triangle_intersect", (long)n); for (std::size_t i = 0; i < n; ++i) o.pt("segment_triangle_intersect-point", z[i]); o.scale("segment_triangle_intersect-any", segment_triangle_intersect(p[0], p[1], p[2], p[3], p[4])); }
    o.scale("ray_aabb_intersection", (bool)ray_aabb_intersection(A, d, b, k0, x, cmp)); { line<P2> l(A, d); o.scale("line_aabb_intersection", (bool)line_aabb_intersection(l, b, k0, x, k1, y, cmp)); } o("eberly_triangle_aabb_intersection_2d", eberly_triangle_aabb_intersection_2d(A, B, p[4], b, cmp)); { double x0 = A[0], y0 = A[1], x1 = B[0], y1 = B[1]; bool h = cohen_sutherland_line_clip(x0, y0, x1, y1, p[0][0], p[1][0], p[0][1], p[1][1], cmp); o("cohen_sutherland_line_clip", h); }
}
template <class C> static void ring(const Pts& g, const Pts& q, const C& cmp, Out& o) { // a simple polygon and some points
    G2 G(g.begin(), g.end()); L2 L(g.begin(), g.end()); const P2& X = q[0];
    o("point_polygon_containment_or_on_border", (long)point_polygon_containment_or_on_border(X, G, cmp)); { auto r = find_containing_polygon_border_segment(G, X, cmp); o("find_containing_polygon_border_segment", r ? 1 : 0); } o("remove_collinear_points_polygon", (long)remove_collinear_points_polygon(G, cmp).size()); o("coalesce_adjacent_points_polygon", (long)coalesce_adjacent_points_polygon(G, cmp).size()); o("identify_collinear_points_polygon", (long)identify_collinear_points_polygon(G, cmp).size()); o("identify_adjacent_points_polygon", (long)identify_adjacent_points_polygon(G, cmp).size()); o("clean_polygon", (long)clean_polygon(G, cmp).size()); o("remove_collinear_points_polyline", (long)remove_collinear_points_polyline(L, cmp).size()); o("coalesce_adjacent_points_polyline", (long)coalesce_adjacent_points_polyline(L, cmp).size()); o("clean_polyline", (long)clean_polyline(L, cmp).size());
    { G2 H(q.begin() + 4, q.end()); o("polygons_equal", (long)polygon_polygon_offset(G, H, cmp)); o("are_polygons_congruent", are_polygons_congruent(G, H, cmp)); o("point_sequences_equal", point_sequences_equal(G, H, cmp)); o("polygon_polygon_containment", polygon_polygon_containment(H, G, cmp)); L2 h(q.begin() + 4, q.end()); o("are_polylines_congruent", are_polylines_congruent(L, h, cmp)); o("polygon_polyline_containment", polygon_polyline_containment(h, G, cmp)); }
    { S2 s(q[0], q[1]); long n = 0; auto hit = [&](auto&&...) { ++n; return false; }; o("segment_polygon_border_intersect", segment_polygon_border_intersect(s, G, hit, cmp)); o.scale("segment_polygon_border_intersect-visits", n); o.scale("segment_projects_outside_polygon", segment_projects_outside_polygon(s, G, cmp)); }
    o.scale("find_containing_or_closest_polygon_border_segment", (long)find_containing_or_closest_polygon_border_segment(G, X, cmp)); { auto r = point_on_polyline_length_characteristics(L, X, cmp); o.val("point_on_polyline_length_characteristics", std::get<0>(r).value(), 1); o.val("point_on_polyline_length_characteristics-rest", std::get<1>(r).value(), 1); }
    o.val("get_area", get_area(G), 2); { P2 k = get_centroid(G); o.pt("get_centroid", k); } o.val("point_polygon_distance", point_polygon_distance(X, G), 1); { S2 s(q[0], q[1]); o.val("segment_polygon_distance", segment_polygon_distance(s, G, cmp), 1); double t, u; P2 x, y; std::size_t i; o.val("segment_polygon_closest_point", segment_polygon_closest_point(s, G, i, t, u, x, y, cmp), 2); o.pt("segment_polygon_closest_point-1", x); o.pt("segment_polygon_closest_point-2", y); }
    { G2 H(q.begin() + 4, q.end()); std::size_t i, j; double t, u; P2 x, y; o.val("polygon_polygon_closest_point", polygon_polygon_closest_point(G, H, i, j, t, u, x, y, cmp), 2); o.pt("polygon_polygon_closest_point-1", x); o.pt("polygon_polygon_closest_point-2", y); o.val("polygon_polygon_distance", polygon_polygon_distance(G, H, cmp), 1); }
    o("is_polygon_simple", is_polygon_simple(G, cmp)); { long n = 0; polyline_self_intersection(L, [&](auto&&...) { ++n; return false; }, cmp); o("polyline_self_intersection", n > 0); }
}
template <class C> static void space(const Pts& f, const C& cmp, Out& o) { // points come as (x, y), (z, -)
    std::vector<P3> p; for (std::size_t i = 0; i + 1 < f.size(); i += 2) p.push_back(P3(f[i][0], f[i][1], f[i + 1][0])); auto pt = [&](const char* n, const P3& q) { o.val(n, q[0], 1); o.val(n, q[1], 1); o.val(n, q[2], 1); };
    const P3 &A = p[0], &B = p[1], &D = p[2], &E = p[3], &F = p[4]; { P3 x[2]; intersection_type r = segment_segment_intersection(A, B, D, E, x, cmp); o("segment_segment_intersection-3d", (long)r); if (r == e_crossing) pt("segment_segment_intersection-3d-point", x[0]); }
    o("numeric_sequence_equals-3d", numeric_sequence_equals(A, D, cmp)); o("lexicographically_less_than-3d", lexicographically_less_than(A, D, cmp)); o("distinct-points-3d", (long)std::set<P3, lexicographical_comparer<C>>(p.begin(), p.end(), lexicographical_comparer<C>(cmp)).size()); axis_aligned_bounding_box<P3> b(P3(std::min(A[0], B[0]), std::min(A[1], B[1]), std::min(A[2], B[2])), P3(std::max(A[0], B[0]), std::max(A[1], B[1]), std::max(A[2], B[2]))), e(P3(std::min(D[0], E[0]), std::min(D[1], E[1]), std::min(D[2], E[2])), P3(std::max(D[0], E[0]), std::max(D[1], E[1]), std::max(D[2], E[2]))); o("aabb-intersects-3d", b.intersects(e, cmp)); o("aabb-intersects-point-3d", b.intersects(F, cmp)); o("aabb-contains-3d", b.contains(e, cmp));
    { kd_tree<P3> t(p, cmp, median_partitioning_strategy()); long n = 0; t.search(e, [&](const P3&) { ++n; }, cmp); o("kd_tree-search-3d", n); }
    { plane<P3> l(D, E, F); o("classify_point_to_plane-3d", (long)classify_point_to_plane(A, l, cmp)); o("classify_simplex_to_plane-3d", (long)classify_simplex_to_plane(segment<P3>(A, B), l, cmp)); double t; P3 q; bool h = segment_plane_intersection(A, B, l, t, q); o.scale("segment_plane_intersection-3d", h); if (h) { o.val("segment_plane_intersection-3d-t", t, 0); pt("segment_plane_intersection-3d-point", q); } }
    o.val("point_point_distance-3d", point_point_distance(A, B), 1); o.val("point_segment_distance-3d", point_segment_distance(A, segment<P3>(D, E)), 1); o.val("point_aabb_distance-3d", point_aabb_distance(F, b), 1); o.val("aabb_aabb_distance-3d", aabb_aabb_distance(b, e), 1);
}
template <class C> static void structures(const Pts& e, const Pts& q, const C& cmp, Out& o) { // edges of a simple polygon in some order, end points separate
    std::vector<S2> s; for (std::size_t i = 0; i + 1 < e.size(); i += 2) s.push_back(S2(e[i], e[i + 1]));
    { auto d = make_dcel<P2>(s, cmp); long n = 0; for (auto& p : d.get_polygons()) n += 1000 + (long)p.size(); o("doubly_connected_edge_list-polygons", n); n = 0; for (auto& p : d.get_polylines()) n += 1000 + (long)p.size(); o("doubly_connected_edge_list-polylines", n); }
    { node_bsp_tree_2d<S2> t(s, partition_policies::first_segment_selector_policy<S2>(), cmp), u(s, partition_policies::scored_segment_selector_policy<S2, C>(cmp), cmp); for (auto& p : q) { o("locate_point", (long)t.locate_point(p, cmp)); o("locate_point-scored", (long)u.locate_point(p, cmp)); } }
    if (!std::is_same<C, Direct>::value) { solid_leaf_bsp_tree<S2> w(s, partition_policies::autopartition_policy(), cmp); for (auto& p : q) o("point_in_solid_space", (long)w.point_in_solid_space(p, cmp)); }
    { node_bsp_tree_2d<S2> t(s, partition_policies::first_segment_selector_policy<S2>(), cmp); long n = 0; for (auto& p : q) t.painters_traversal(p, [&](const S2& x) { ++n; o.val("painters_traversal", point_point_distance(x.get_start(), x.get_end()), 1); }, cmp); o.scale("painters_traversal-pieces", n); } // unit normals: no exact policy
    if (!std::is_same<C, Direct>::value) { std::vector<S2> in = s; long n = 0; bentley_ottmann_segment_intersection(in, [&](const P2&, std::set<S2*>::const_iterator b, std::set<S2*>::const_iterator f) { n += 1000 + (long)std::distance(b, f); }, cmp); o("bentley_ottmann_segment_intersection", n); }
}
template <class C> static void chains(const Pts& a, const Pts& b, const P2& s0, const P2& s1, const C& cmp, Out& o) {
    L2 L(a.begin(), a.end()), M(b.begin(), b.end()); auto hit = [&](long& n) { return [&n](auto&&...) { ++n; return false; }; };
    { long n = 0; bool h = polyline_polyline_intersect(L, M, hit(n), cmp); o("polyline_polyline_intersect", h); }
    o.scale("point_polyline_orientation", (long)point_polyline_orientation(s0, L, cmp));
    S2 s(s0, s1); { long n = 0; bool h = segment_polyline_intersect(s, L, hit(n), cmp); o("segment_polyline_intersect", h); } { long n = 0; o("polyline_self_intersection", polyline_self_intersection(L, hit(n), cmp)); }
    o.val("segment_polyline_distance", segment_polyline_distance(s, L, cmp), 1); o.val("polyline_polyline_distance", polyline_polyline_distance(L, M, cmp), 1); o.val("segment_segment_distance", segment_segment_distance(s, S2(a[0], a[1]), cmp), 1); { double t, u; P2 x, y; o.val("segment_segment_closest_point", segment_segment_closest_point(s0, s1, a[0], a[1], t, u, x, y, cmp), 2); o.val("segment_segment_closest_point-s", t, 0); o.val("segment_segment_closest_point-t", u, 0); o.pt("segment_segment_closest_point-1", x); o.pt("segment_segment_closest_point-2", y); std::size_t i; o.val("segment_polyline_closest_point", segment_polyline_closest_point(s, L, i, t, u, x, y, cmp), 2); o.pt("segment_polyline_closest_point-1", x); o.pt("segment_polyline_closest_point-2", y); }
    o.val("point_polyline_distance", point_polyline_distance(s0, L), 1); o.val("point_segment_distance", point_segment_distance(s0, S2(a[0], a[1])), 1); o.val("polyline_length", polyline_length(L), 1); { P2 m = polyline_mid_point(L); o.pt("polyline_mid_point", m); }
    for (const P2& p : clip_polyline_ends(L, polyline_length(L) * .25, cmp)) o.pt("clip_polyline_ends", p); for (const P2& p : ramer_douglas_peucker_algorithm(L, polyline_length(L) / 8)) o.pt("ramer_douglas_peucker", p);
}
template <class C> static void rounds(const Pts& p, const C& cmp, Out& o) { // radii are distances of lattice points, all vectors non-zero
    typedef sphere2_double_2d C2; double r = point_point_distance(p[0], p[1]), q = r / 2, t; P2 x; C2 S(p[2], r), T(p[3], q); const P2 &A = p[4], &B = p[5]; V2 d = normalize(B - A), w = B - A; axis_aligned_bounding_box<P2> b(P2(std::min(A[0], B[0]), std::min(A[1], B[1])), P2(std::max(A[0], B[0]), std::max(A[1], B[1])));
    { bool h = segment_sphere_intersection(A, B, S, t, x, cmp); o.scale("segment_sphere_intersection", h); if (h) { o.val("segment_sphere_intersection-t", t, 0); o.pt("segment_sphere_intersection-point", x); } h = ray_sphere_intersection(A, d, S, t, x, cmp); o.scale("ray_sphere_intersection", h); if (h) { o.val("ray_sphere_intersection-t", t, 1); o.pt("ray_sphere_intersection-point", x); } }
    { P2 y[2]; double u[2]; auto h = segment_sphere_intersection(A, B, S, u, y, cmp); o.scale("segment_sphere_intersection-0", h.is_t0_intersecting()); o.scale("segment_sphere_intersection-1", h.is_t1_intersecting()); if (h.is_t0_intersecting()) o.pt("segment_sphere_intersection-point-0", y[0]); if (h.is_t1_intersecting()) o.pt("segment_sphere_intersection-point-1", y[1]); }
    o.scale("sphere_aabb_intersection", sphere_aabb_intersection(S, b)); { bool h = segment_capsule_intersection(A, B, p[2], p[3], q, t, x, cmp); o.scale("segment_capsule_intersection", h); if (h) { o.val("segment_capsule_intersection-t", t, 0); o.pt("segment_capsule_intersection-point", x); } }
    { auto h = circle_circle_intersection(S, T, cmp); o.scale("circle_circle_intersection", (long)h.State); auto k = sphere_sphere_intersection(S, T, cmp); o.scale("sphere_sphere_intersection", (long)k.State); }
    // times are free of dimension: velocities scale with the figure
    { V2 z(0.5 * w); bool h = moving_sphere_sphere_intersection(S, T, w, V2(p[2] - p[3]), t, x, cmp); o.scale("moving_sphere_sphere_intersection", h); if (h) { o.val("moving_sphere_sphere_intersection-t", t, 0); if (t > 0) o.pt("moving_sphere_sphere_intersection-point", x); } auto k = moving_sphere_segment_intersection(T, z, S2(A, B), t, x, cmp); o.scale("moving_sphere_segment_intersection-along", k.is_intersecting()); k = moving_sphere_segment_intersection(T, V2(p[2] - p[3]), S2(A, B), t, x, cmp); o.scale("moving_sphere_segment_intersection", k.is_intersecting()); if (k.is_intersecting()) { o.val("moving_sphere_segment_intersection-t", t, 0); o.pt("moving_sphere_segment_intersection-point", x); } h = moving_sphere_aabb_intersection(T, V2(p[2] - p[3]), b, t, x, cmp); o.scale("moving_sphere_aabb_intersection", h); if (h) { o.val("moving_sphere_aabb_intersection-t", t, 0); o.pt("moving_sphere_aabb_intersection-point", x); }
      line<P2> l(A, d); auto m = moving_sphere_plane_intersection(T, V2(p[2] - p[3]), l, t, x, cmp); o.scale("moving_sphere_plane_intersection", m.is_intersecting()); o.scale("moving_sphere_plane_intersection-touching", m.is_touching()); o.scale("moving_sphere_plane_intersection-away", m.is_moving_away()); if (m.is_intersecting()) { o.val("moving_sphere_plane_intersection-t", t, 0); o.pt("moving_sphere_plane_intersection-point", x); } }
}
// no tolerance here: lengths scale by one power, times by another (velocities by their quotient)
template <class C> static void motion(const Pts& p, double w, const C& cmp, Out& o) { // p[4] and p[5] differ in both coordinates, the other pairs differ
    typedef sphere2_double_2d C2; typedef oriented_bounding_box<P2, V2> OB; double r = point_point_distance(p[0], p[1]), h = r / 2, t = 0, u = 0; P2 x(0, 0), y(0, 0); C2 S(p[2], r), T(p[3], h); const P2 &A = p[4], &B = p[5]; V2 d = normalize(B - A), n(-d[1], d[0]), e = normalize(p[1] - p[0]), f(-e[1], e[0]); axis_aligned_bounding_box<P2> b(P2(std::min(A[0], B[0]), std::min(A[1], B[1])), P2(std::max(A[0], B[0]), std::max(A[1], B[1])));
    V2 v0(w * (p[2] - p[3])), v1(w * (p[1] - p[0])), v2(w * (p[3] - B)); OB O(A, e, f, h, point_point_distance(p[2], p[3])), Q(p[2], d, n, r, h); double end = 1 / w;
    auto time = [&](const char* s, double v) { o.val(s, v, 0, 1); };
    for (int k = 0; k < 3; ++k) { const V2& v = k == 0 ? v0 : k == 1 ? v1 : v2; if (v[0] == 0 && v[1] == 0) continue;
      { auto g = moving_sphere_obb_intersection(T, v, O, t, x, cmp); o.scale("moving_sphere_obb_intersection", g.is_intersecting() + 2 * g.is_penetrating() + 4 * g.is_moving_away() + 8 * g.is_endpoint()); if (g.is_intersecting()) { time("moving_sphere_obb_intersection-t", t); o.pt("moving_sphere_obb_intersection-point", x); } }
      { bool g = moving_obb_obb_intersection(O, v, Q, V2(w * (p[4] - p[0])), 4 * end, t, u); o.scale("moving_obb_obb_intersection", g); if (g) { time("moving_obb_obb_intersection-first", t); time("moving_obb_obb_intersection-last", u); } }
      { auto g = moving_sphere_segment_intersection(T, v, S2(A, B), t, x, cmp); o.scale("moving_sphere_segment_intersection", g.is_intersecting() + 2 * g.is_penetrating() + 4 * g.is_moving_away() + 8 * g.is_endpoint()); if (g.is_intersecting()) { time("moving_sphere_segment_intersection-t", t); o.pt("moving_sphere_segment_intersection-point", x); } }
      { bool g = moving_sphere_aabb_intersection(T, v, b, t, x, cmp); o.scale("moving_sphere_aabb_intersection", g); if (g) { time("moving_sphere_aabb_intersection-t", t); o.pt("moving_sphere_aabb_intersection-point", x); } }
      { line<P2> l(A, d); auto g = moving_sphere_plane_intersection(T, v, l, t, x, cmp); o.scale("moving_sphere_plane_intersection", g.is_intersecting()); if (g.is_intersecting()) { time("moving_sphere_plane_intersection-t", t); o.pt("moving_sphere_plane_intersection-point", x); } }
      { bool g = moving_sphere_sphere_intersection(S, C2(A, h), v, V2(w * (p[4] - p[0])), t, x, cmp); o.scale("moving_sphere_sphere_intersection", g); if (g) { time("moving_sphere_sphere_intersection-t", t); if (t > 0) o.pt("moving_sphere_sphere_intersection-point", x); } }
      { G2 g{p[2], p[3], p[0]}, q{A, P2(B[0], A[1]), B}; if (get_signed_area(g) != 0) { if (get_signed_area(g) < 0) std::swap(g[1], g[2]); if (get_signed_area(q) < 0) std::swap(q[1], q[2]); bool m = moving_convex_polygons_intersection(g, v, q, V2(w * (p[4] - p[0])), 4 * end, t, u, cmp); o.scale("moving_convex_polygons_intersection", m); if (m) { time("moving_convex_polygons_intersection-first", t); time("moving_convex_polygons_intersection-last", u); } } } }
    o.scale("sphere_obb_intersection", sphere_obb_intersection(S, O)); o.val("point_obb_distance", point_obb_distance(p[3], O), 1); o.val("point_obb_distance_sqrd", point_obb_distance_sqrd(p[0], Q), 2); o.pt("point_obb_closest_point", point_obb_closest_point(p[3], O)); o.scale("obb_obb_intersection", obb_obb_intersection(O, Q, cmp)); o.val("segment_obb_distance", segment_obb_distance(S2(p[2], p[3]), O, cmp), 1);
    auto ne = [](const P2& a, const P2& z) { return a[0] != z[0] || a[1] != z[1]; }; L2 L{p[0], p[1], p[2], p[3], A}; if (ne(p[1], p[2]) && ne(p[3], A)) { o.scale("sphere_polyline_intersect", sphere_polyline_intersect(T, L, [&](segment_sphere_intersection_result r, std::size_t i, std::size_t j, double, P2 x0, double, P2 x1) { o.scale("sphere_polyline_intersect-kind", r.is_t0_intersecting() + 2 * r.is_t1_intersecting() + 4 * (long)i + 64 * (long)j); if (r.is_t0_intersecting()) o.pt("sphere_polyline_intersect-0", x0); if (r.is_t1_intersecting()) o.pt("sphere_polyline_intersect-1", x1); return false; }, cmp));
      auto q = polyline_split(L, polyline_length(L) * .3); o.scale("polyline_split", (long)std::get<0>(q).size()); for (auto& z : std::get<1>(q)) o.pt("polyline_split-point", z); if (ne(p[0], p[2]) && ne(p[1], p[3]) && ne(p[2], A)) { o.val("polyline_total_curvature", polyline_total_curvature(L), 0); o.val("polyline_signed_curvature_at_index", polyline_signed_curvature_at_index(L, 2), -1); } o.pt("point_polyline_closest_point", point_polyline_closest_point(B, L)); for (auto& z : polyline_offset(L2{p[0], p[1], p[2]}, oriented_left, h / 4, cmp)) o.pt("polyline_offset", z); }
    o.pt("point_segment_closest_point", point_segment_closest_point(p[0], S2(p[2], p[3]))); o.pt("segment_mid_point", segment_mid_point(S2(p[2], p[3]))); o.val("eberly_segment_segment_distance_sqrd", eberly_segment_segment_distance_sqrd(S2(p[0], p[1]), S2(p[2], p[3])), 2);
    { G2 g{p[2], p[3], p[0]}, q{A, P2(B[0], A[1]), B}; if (get_signed_area(q) < 0) std::swap(q[1], q[2]); if (get_signed_area(g) != 0) { if (get_signed_area(g) < 0) std::swap(g[1], g[2]); o.pt("point_polygon_closest_point", point_polygon_closest_point(p[1], g)); o.scale("point_in_polygon", point_in_polygon(p[1], g)); o.scale("convex_polygon_polygon_intersection", (long)convex_polygon_polygon_intersection(g, q, [&](const P2& z) { o.pt("convex_polygon_polygon_intersection-point", z); }, cmp)); } }
}
static std::string shp(const std::vector<V>& v) { std::ostringstream os; for (V x : v) os << x; return os.str(); }
typedef std::vector<V> LV;
static void degenerate(Case& c, LV& p, std::size_t n, I m) { for (std::size_t i = 0; i < n; ++i) { V v = gx::pt(c, m); if (i > 0) switch (c.draw(5)) { case 1: v = p[(std::size_t)c.draw(i)]; break; case 2: { V a = p[(std::size_t)c.draw(i)], b = p[(std::size_t)c.draw(i)], d = b - a; I g = std::__gcd(std::abs(d.x), std::abs(d.y)); if (g) { V e(d.x / g, d.y / g), w = a + c.range(-1, g + 1) * e; if (std::abs(w.x) <= m && std::abs(w.y) <= m) v = w; } break; } case 3: v.x = p[(std::size_t)c.draw(i)].x; break; case 4: v.y = p[(std::size_t)c.draw(i)].y; break; default: break; } p.push_back(v); } }
static const double U = 1.0 / (1 << 20);
struct Fig { LV l; std::vector<std::pair<int, int>> j; Pts at(double s, double jit) const { Pts r; for (std::size_t i = 0; i < l.size(); ++i) r.push_back(P2((double)l[i].x * s + j[i].first * jit * s, (double)l[i].y * s + j[i].second * jit * s)); return r; } };
// f(pts, policy, out)
template <class F> static void relate(Case& c, Fig& g, F f) {
    bool jit = false; for (std::size_t i = 0; i < g.l.size(); ++i) { int a = (int)c.around(1), b = (int)c.around(1); g.j.push_back({a, b}); jit = jit || a || b; }
    VP_NOTE(c, "lattice points " << shp(g.l) << " moved by"); for (auto& e : g.j) VP_NOTE(c, " " << e.first << "," << e.second);
    Out L; f(g.at(1, 0), Abs(1e-10), L); double E = c.pick<double>({1e-3, 1e-4}), jt = E == 1e-4 ? U / 16 : U; Out J; f(g.at(1, jt), Abs(E), J); VP_NOTE(c, " times " << jt << " under tolerance " << E);
    VP_CHECK(c, L.o.size() == J.o.size(), "observers", "differ"); if (jit) c.nontrivial();
    for (std::size_t i = 0; i < L.o.size(); ++i) if (L.o[i].near) VP_CHECK(c, L.o[i].v == J.o[i].v, std::string("near-") + L.o[i].n, "verdict " << L.o[i].v << " on the lattice, " << J.o[i].v << " for the moved points within the tolerance");
    // a power of four: square roots scale exactly as well
    int k = 2 * (int)(c.chance(1, 3) ? c.range(-60, 56) : c.range(-24, 10)); double s = std::ldexp(1.0, k); Out A, B; f(g.at(1, U), Direct(), A); f(g.at(s, U), Direct(), B); VP_NOTE(c, " scale 2^" << k);
    VP_CHECK(c, A.o.size() == B.o.size() && A.x.size() == B.x.size(), "observers", "differ at another scale");
    for (std::size_t i = 0; i < A.o.size(); ++i) VP_CHECK(c, A.o[i].v == B.o[i].v, std::string("scale-") + A.o[i].n, "verdict " << A.o[i].v << " for the figure, " << B.o[i].v << " for the figure scaled by 2^" << k << " under an exact policy");
    for (std::size_t i = 0; i < A.x.size(); ++i) { double w = std::ldexp(A.x[i].v, k * A.x[i].dim); VP_CHECK(c, w == B.x[i].v || (std::isnan(w) && std::isnan(B.x[i].v)), std::string("scale-") + A.x[i].n, "value " << B.x[i].v << " at scale 2^" << k << " expected " << w); }
}
VP_ASPECT(points, 150000, 4000000, "degenerate-biased lattice points moved by a millionth, under a wider tolerance and under an exact policy at two scales; non-trivial: some point moved") { Fig g; degenerate(c, g.l, 6, 4); relate(c, g, [&](const Pts& p, const auto& cmp, Out& o) { points(p, cmp, o); }); }
VP_ASPECT(linear, 150000, 4000000, "as points, for lines, segments and rays") { Fig g; degenerate(c, g.l, 4, 4); if (g.l[0] == g.l[1] || g.l[2] == g.l[3]) { c.discard(); return; } relate(c, g, [&](const Pts& p, const auto& cmp, Out& o) { linear(p, cmp, o); }); }
VP_ASPECT(boxes, 150000, 4000000, "as points, for a box with a segment and a triangle") { Fig g; degenerate(c, g.l, 5, 4); V a = g.l[0], b = g.l[1]; g.l[0] = V(std::min(a.x, b.x), std::min(a.y, b.y)); g.l[1] = V(std::max(a.x, b.x), std::max(a.y, b.y)); if (a.x == b.x || a.y == b.y || g.l[2] == g.l[3] || gx::side(g.l[2], g.l[3], g.l[4]) == 0) { c.discard(); return; } relate(c, g, [&](const Pts& p, const auto& cmp, Out& o) { boxes(p, cmp, o); }); }
VP_ASPECT(rings, 80000, 2000000, "as points, for a simple polygon (with collinear vertices), probes on vertices and edges and a second ring or chain, often the same one") {
    Poly r = gx::gen_simple(c, 2, 8); r = c.chance(1, 2) ? gx::with_collinear(c, r) : [&] { for (auto& v : r) v = 2 * v; return r; }(); std::size_t n = r.size(); Fig g; for (V v : r) g.l.push_back(v); for (int i = 0; i < 4; ++i) g.l.push_back(gx::probe(c, r, 4)); if (g.l[n] == g.l[n + 1]) g.l[n + 1] = g.l[n] + V(2, 0); Poly h = r; if (c.chance(1, 2)) std::rotate(h.begin(), h.begin() + (std::ptrdiff_t)c.draw(n), h.end()); if (c.chance(1, 4)) h = gx::translate(h, V(c.around(1), c.around(1))); if (c.chance(1, 3)) std::reverse(h.begin(), h.end()); for (V v : h) g.l.push_back(v);
    relate(c, g, [&](const Pts& p, const auto& cmp, Out& o) { ring(Pts(p.begin(), p.begin() + (std::ptrdiff_t)n), Pts(p.begin() + (std::ptrdiff_t)n, p.end()), cmp, o); }); }
VP_ASPECT(chains, 80000, 2000000, "as points, for two chains and a segment") {
    LV a, b; degenerate(c, a, (std::size_t)c.range(2, 5), 4); for (V v : a) b.push_back(v); LV all = a; degenerate(c, all, 0, 4); std::size_t n = a.size(); LV m; degenerate(c, m, (std::size_t)c.range(2, 5), 4); bool bad = false; for (std::size_t i = 0; i + 1 < n; ++i) bad = bad || a[i] == a[i + 1]; for (std::size_t i = 0; i + 1 < m.size(); ++i) bad = bad || m[i] == m[i + 1]; if (bad || !gx::is_simple_chain(Poly(a.begin(), a.end()))) { c.discard(); return; } Fig g; g.l = a; g.l.insert(g.l.end(), m.begin(), m.end()); g.l.push_back(gx::pt(c, 4)); g.l.push_back(gx::pt(c, 4)); std::size_t k = m.size();
    relate(c, g, [&](const Pts& p, const auto& cmp, Out& o) { chains(Pts(p.begin(), p.begin() + (std::ptrdiff_t)n), Pts(p.begin() + (std::ptrdiff_t)n, p.begin() + (std::ptrdiff_t)(n + k)), p[n + k], p[n + k + 1], cmp, o); }); }
VP_ASPECT(rounds, 100000, 3000000, "circles, capsules and moving discs under an exact policy at two scales") { Fig g; degenerate(c, g.l, 6, 4); if (g.l[0] == g.l[1] || g.l[2] == g.l[3] || g.l[4].x == g.l[5].x || g.l[4].y == g.l[5].y) { c.discard(); return; } relate(c, g, [&](const Pts& p, const auto& cmp, Out& o) { rounds(p, cmp, o); }); }
VP_ASPECT(structures, 40000, 1000000, "as points, for the edges of a simple polygon in any order, the two ends of an edge at a corner moved separately, in an edge list, two partition trees and a sweep, queried on and off the edges and their extensions") {
    Poly r = gx::gen_simple(c, c.pick<I>({2, 3, 4}), 7); for (auto& v : r) v = 2 * v; std::size_t n = r.size(); std::vector<std::size_t> ix(n); for (std::size_t i = 0; i < n; ++i) ix[i] = i; for (std::size_t i = n; i > 1; --i) if (c.chance(1, 3)) std::swap(ix[i - 1], ix[(std::size_t)c.draw(i)]);
    Fig g; for (auto i : ix) { g.l.push_back(r[i]); g.l.push_back(r[(i + 1) % n]); } for (int k = 0; k < 3; ++k) { std::size_t i = (std::size_t)c.draw(n); V a = r[i], b = r[(i + 1) % n]; if (c.chance(1, 3)) { V d = b - a; I h = std::__gcd(std::abs(d.x), std::abs(d.y)); V w(d.x / h, d.y / h); g.l.push_back(a + c.range(-3, h + 3) * w); } else g.l.push_back(gx::probe(c, r, 8)); }
    relate(c, g, [&](const Pts& p, const auto& cmp, Out& o) { structures(Pts(p.begin(), p.begin() + 2 * (std::ptrdiff_t)n), Pts(p.begin() + 2 * (std::ptrdiff_t)n, p.end()), cmp, o); }); }
VP_ASPECT(space, 100000, 3000000, "as points, for segments, boxes and a plane in space, degenerate-biased") {
    Fig g; const I m = 3; struct W { I x[3]; }; std::vector<W> w; for (int i = 0; i < 5; ++i) { W a; for (I& x : a.x) x = c.around(m); if (i) switch (c.draw(5)) { case 1: a = w[(std::size_t)c.draw((std::uint64_t)i)]; break; case 2: if (i > 1) { W b = w[(std::size_t)c.draw((std::uint64_t)i)], d = w[(std::size_t)c.draw((std::uint64_t)i)]; I k = c.range(-1, 2); bool ok = true; for (int j = 0; j < 3; ++j) ok = ok && std::abs(b.x[j] + k * (d.x[j] - b.x[j])) <= m; if (ok) for (int j = 0; j < 3; ++j) a.x[j] = b.x[j] + k * (d.x[j] - b.x[j]); } break; case 3: a.x[c.draw(3)] = w[(std::size_t)c.draw((std::uint64_t)i)].x[c.draw(3)]; break; case 4: a.x[2] = w[0].x[2]; break; default: break; } w.push_back(a); }
    auto same = [&](int i, int j) { return w[i].x[0] == w[j].x[0] && w[i].x[1] == w[j].x[1] && w[i].x[2] == w[j].x[2]; }; I n[3]; for (int j = 0; j < 3; ++j) { int a = (j + 1) % 3, b = (j + 2) % 3; n[j] = (w[3].x[a] - w[2].x[a]) * (w[4].x[b] - w[2].x[b]) - (w[3].x[b] - w[2].x[b]) * (w[4].x[a] - w[2].x[a]); } if (same(0, 1) || (!n[0] && !n[1] && !n[2])) { c.discard(); return; }
    for (auto& a : w) { g.l.push_back(V(a.x[0], a.x[1])); g.l.push_back(V(a.x[2], 0)); } relate(c, g, [&](const Pts& p, const auto& cmp, Out& o) { space(p, cmp, o); }); }
VP_ASPECT(motion, 100000, 3000000, "moving discs, boxes and polygons, oriented boxes, clipping, splitting, offsetting and curvature under an exact policy, lengths scaled by one power of four and times by another; non-trivial: both scales differ from one") {
    Fig g; degenerate(c, g.l, 6, 4); if (g.l[0] == g.l[1]) ++g.l[1].y; if (g.l[2] == g.l[3]) --g.l[3].x; if (g.l[4].x == g.l[5].x) g.l[5].x += 2; if (g.l[4].y == g.l[5].y) ++g.l[5].y; double mv = c.pick<double>({0, U, 1.0 / 64}); for (int i = 0; i < 6; ++i) { int a = (int)c.around(1), b = (int)c.around(1); g.j.push_back({a, b}); }
    int k = 2 * (int)(c.chance(1, 3) ? c.range(-60, 56) : c.range(-24, 10)), m = 2 * (int)(c.chance(1, 2) ? c.range(-30, 30) : c.range(-6, 6)); VP_NOTE(c, "lattice points " << shp(g.l) << " moved by"); for (auto& e : g.j) VP_NOTE(c, " " << e.first << "," << e.second); VP_NOTE(c, " times " << mv << " lengths scaled by 2^" << k << " times by 2^" << m); if (k && m) c.nontrivial();
    Out A, B; motion(g.at(1, mv), 1, Direct(), A); motion(g.at(std::ldexp(1.0, k), mv), std::ldexp(1.0, -m), Direct(), B);
    for (std::size_t i = 0; i < A.o.size() && i < B.o.size(); ++i) VP_CHECK(c, std::string(A.o[i].n) == B.o[i].n && A.o[i].v == B.o[i].v, std::string("scale-") + A.o[i].n, "verdict " << A.o[i].v << " for the figure, " << B.o[i].v << " for the scaled figure under an exact policy");
    VP_CHECK(c, A.o.size() == B.o.size() && A.x.size() == B.x.size(), "observers", "differ at another scale");
    for (std::size_t i = 0; i < A.x.size(); ++i) { double w = std::ldexp(A.x[i].v, k * A.x[i].dim + m * A.x[i].time); VP_CHECK(c, w == B.x[i].v || (std::isnan(w) && std::isnan(B.x[i].v)), std::string("scale-") + A.x[i].n, "value " << B.x[i].v << " for the scaled figure, expected " << w); } }
