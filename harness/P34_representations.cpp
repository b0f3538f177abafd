// P34: every algorithm gives the same answer whatever represents the coordinates (double, dimensioned quantities, user types through accessors or tuples) and whatever holds the point sequences.
// FALLBACK: -DVP_NO_USER
// FALLBACK: -DVP_NO_UNITS
// FALLBACK: -DVP_NO_UNITS -DVP_NO_USER
#include "gx.hpp"
#include "vp.hpp"
#include <boost/tuple/tuple.hpp>
#include <boost/fusion/include/boost_tuple.hpp>
#include <boost/tuple/tuple_comparison.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/capsule.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/tensor/vector.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/primitive/deque_point_sequence.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/utility/member_function_fusion_adaptor.hpp>
#include <geometrix/tensor/fusion_vector_access_policy.hpp>
#include <geometrix/tensor/tuple_vector_access_policy.hpp>
#include <boost/units/physical_dimensions.hpp>
#include <boost/units/dimensionless_quantity.hpp>
#include <boost/units/systems/si.hpp>
#include <boost/units/io.hpp>
#include <boost/units/pow.hpp>
#include <boost/units/limits.hpp>
#include <geometrix/arithmetic/boost_units_arithmetic.hpp>

#include <queue>
#include <deque>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polyline_distance.hpp>
#include <geometrix/algorithm/distance/point_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polygon_distance.hpp>
#include <geometrix/algorithm/distance/point_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/point_aabb_distance.hpp>
#include <geometrix/algorithm/distance/point_obb_distance.hpp>
#include <geometrix/algorithm/distance/point_line_distance.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
#include <geometrix/algorithm/distance/segment_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_polyline_distance.hpp>
#include <geometrix/algorithm/distance/segment_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_polygon_distance.hpp>
#include <geometrix/algorithm/distance/segment_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_obb_distance.hpp>
#include <geometrix/algorithm/distance/aabb_aabb_distance.hpp>
#include <geometrix/algorithm/distance/polygon_polygon_distance.hpp>
#include <geometrix/algorithm/distance/polygon_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_distance.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_closest_point.hpp>
#include <geometrix/algorithm/linear_components_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_line_intersection.hpp>
#include <geometrix/algorithm/line_intersection.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/intersection/segment_plane_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/line_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/aabb_aabb_intersection.hpp>
#include <geometrix/algorithm/cohen_sutherland_line_clipping.hpp>
#include <geometrix/algorithm/intersection/segment_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/circle_circle_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_capsule_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_plane_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_obb_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_separating_axis_convex_polygons.hpp>
#include <geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp>
#include <geometrix/algorithm/intersection/obb_obb_intersection.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/segment_mid_point.hpp>
#include <geometrix/algorithm/is_segment_in_range.hpp>
#include <geometrix/algorithm/rotation.hpp>
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/fast_voxel_grid_traversal.hpp>
#include <geometrix/algorithm/intersection/segment_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_polygon_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_projects_outside_polygon.hpp>
#include <geometrix/algorithm/intersection/polyline_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/polygon_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
#include <geometrix/algorithm/point_sequence/is_congruent.hpp>
#include <geometrix/algorithm/point_sequence/find_subsequence.hpp>
#include <geometrix/algorithm/point_sequence/clip_polyline_ends.hpp>
#include <geometrix/algorithm/point_sequence/polyline_mid_point.hpp>
#include <geometrix/algorithm/point_sequence/polyline_split.hpp>
#include <geometrix/algorithm/point_sequence/curvature.hpp>
#include <geometrix/algorithm/point_sequence/is_polygon_simple.hpp>
#include <geometrix/algorithm/point_sequence/self_intersection.hpp>
#include <geometrix/algorithm/point_sequence/polygon_polygon_containment.hpp>
#include <geometrix/algorithm/point_sequence/polygon_polyline_containment.hpp>
#include <geometrix/algorithm/polygon_with_holes_as_segment_range.hpp>
#include <geometrix/algorithm/point_sequence/remove_collinear_points.hpp>
#include <geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp>
#include <geometrix/algorithm/point_sequence/polyline_offset.hpp>
#include <geometrix/algorithm/point_sequence/point_polyline_orientation.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/plane.hpp>
#include <geometrix/primitive/rectangle.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/arithmetic/vector/lerp.hpp>
#include <geometrix/arithmetic/vector/slerp.hpp>
#include <geometrix/arithmetic/vector/bisect.hpp>
#include <geometrix/arithmetic/vector/is_antiparallel.hpp>
#include <geometrix/arithmetic/vector/normalize_at_index.hpp>
// a user type reached through getters and setters
struct UF { double a, b; UF(double x = 0, double y = 0) : a(x), b(y) {}
  double& get_x() { return a; } double& get_y() { return b; } const double& get_x() const { return a; } const double& get_y() const { return b; } void set_x(const double& v) { a = v; } void set_y(const double& v) { b = v; } };
GEOMETRIX_MEMBER_FUNCTION_FUSION_SEQUENCE(UF, (double&, const double&, get_x, set_x)(double&, const double&, get_y, set_y));
GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_ASSIGNMENT_POLICY(UF, 2);
GEOMETRIX_DEFINE_POINT_TRAITS(UF, (double), 2, double, double, neutral_reference_frame_2d, fusion_vector_member_function_access_policy<UF>);
namespace geometrix { template <> struct construction_policy<UF> {
  template <typename A, typename B> static UF construct(const A& a, const B& b) { return UF(a, b); }
  template <typename N> static UF construct(const N& n) { return UF(geometrix::get<0>(n), geometrix::get<1>(n)); } }; }
// a user type over boost::tuple
struct UT : boost::tuple<double, double> { UT(double x = 0, double y = 0) : boost::tuple<double, double>(x, y) {} };
GEOMETRIX_COMPILE_INDEXED_MEMBER_FUNCTION_FUSION_SEQUENCE(UT, double, get, 2);
namespace geometrix { template <> struct construction_policy<UT> {
  static UT construct(const double& a, const double& b) { return UT(a, b); }
  template <typename N> static UT construct(const N& n) { return UT(geometrix::get<0>(n), geometrix::get<1>(n)); }
  static UT construct(const boost::array<double, 2>& n) { return UT(n[0], n[1]); } }; }
GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_ASSIGNMENT_POLICY(UT, 2);
GEOMETRIX_DEFINE_POINT_TRAITS(UT, (double), 2, double, double, neutral_reference_frame_2d, tuple_vector_access_policy<UT>);

typedef double R;
namespace bu = boost::units;
typedef bu::quantity<bu::si::dimensionless, R> u_d; typedef bu::quantity<bu::si::length, R> u_l; typedef decltype(u_l() * u_l()) u_a; typedef bu::quantity<bu::si::plane_angle, R> u_an; typedef bu::quantity<bu::si::time, R> u_t; typedef bu::quantity<bu::si::velocity, R> u_s;
typedef geometrix::point<u_l, 2> u_p; typedef geometrix::vector<u_l, 2> u_v; typedef geometrix::vector<u_d, 2> u_dv; typedef geometrix::vector<u_s, 2> u_sv;
typedef geometrix::sphere<2, u_p> u_c;
GEOMETRIX_DEFINE_POINT_TRAITS(u_p, (u_l), 2, u_d, u_l, neutral_reference_frame_2d, index_operator_vector_access_policy<u_p>);
GEOMETRIX_DEFINE_VECTOR_TRAITS(u_dv, (u_d), 2, u_d, u_d, neutral_reference_frame_2d, index_operator_vector_access_policy<u_dv>);
GEOMETRIX_DEFINE_VECTOR_TRAITS(u_sv, (u_s), 2, u_d, u_s, neutral_reference_frame_2d, index_operator_vector_access_policy<u_sv>);
GEOMETRIX_DEFINE_SPHERE_TRAITS(2, u_p, u_c);
GEOMETRIX_DEFINE_SPHERE_ACCESS_TRAITS(u_c);
inline bool operator==(const u_p& a, const u_p& b) { return a[0] == b[0] && a[1] == b[1]; }
inline bool operator!=(const u_p& a, const u_p& b) { return !(a == b); }
typedef geometrix::sphere<2, UF> uf_c; typedef geometrix::sphere<2, UT> ut_c;
GEOMETRIX_DEFINE_SPHERE_TRAITS(2, UF, uf_c); GEOMETRIX_DEFINE_SPHERE_ACCESS_TRAITS(uf_c);
GEOMETRIX_DEFINE_SPHERE_TRAITS(2, UT, ut_c); GEOMETRIX_DEFINE_SPHERE_ACCESS_TRAITS(ut_c);

template <class Pt> struct KBase { typedef double l, d, a, t, an, s; typedef Pt p; typedef geometrix::vector<double, 2> v, dv, sv; typedef geometrix::absolute_tolerance_comparison_policy<double> cmp;
  static l L(double x) { return x; } static a A(double x) { return x; } static d D(double x) { return x; } static t T(double x) { return x; } static s S(double x) { return x; } static cmp C(double e = 1e-10) { return cmp(e); } };
struct KD : KBase<geometrix::point<double, 2>> {};
struct KF : KBase<UF> {};
struct KT : KBase<UT> {};
struct KU { typedef u_l l; typedef u_d d; typedef u_a a; typedef u_t t; typedef u_an an; typedef u_s s; typedef u_p p; typedef u_v v; typedef u_dv dv; typedef u_sv sv;
  typedef geometrix::mapped_tolerance_comparison_policy<geometrix::absolute_tolerance_comparison_policy<double>, boost::fusion::pair<u_an, geometrix::relative_tolerance_comparison_policy<double>>> cmp;
  static l L(double x) { return x * bu::si::meters; } static a A(double x) { return L(x) * L(1); } static d D(double x) { return d(x); } static t T(double x) { return x * bu::si::seconds; } static s S(double x) { return x * bu::si::meters_per_second; }
  static cmp C(double e = 1e-10) { return cmp(geometrix::absolute_tolerance_comparison_policy<double>(e), boost::fusion::make_pair<u_an>(geometrix::relative_tolerance_comparison_policy<double>(1e-9))); } };
template <class K> struct KX : K { typedef geometrix::segment<typename K::p> sg; typedef geometrix::polygon<typename K::p> pg; typedef geometrix::polyline<typename K::p> pl; typedef geometrix::sphere<2, typename K::p> ci; typedef geometrix::axis_aligned_bounding_box<typename K::p> bb; typedef geometrix::oriented_bounding_box<typename K::p, typename K::dv> ob; typedef geometrix::capsule<typename K::p> ca; };

inline double raw(double x) { return x; }
template <class U> double raw(const bu::quantity<U, double>& q) { return q.value(); }
struct In { double sc; std::vector<gx::V> w; gx::Poly poly, poly2, poly3; std::vector<gx::V> line, line2; double r, r2, cs, sn, hx, hy; double s; bool flag; };
struct Out { std::vector<double> v; std::vector<std::string> what; std::vector<long> k; std::vector<std::string> kw;
  template <class Q> void n(const char* w, const Q& q) { v.push_back(raw(q)); what.push_back(w); }
  template <class S> void pt(const char* w, const S& q) { n(w, geometrix::get<0>(q)); n(w, geometrix::get<1>(q)); }
  void e(const char* w, long x) { k.push_back(x); kw.push_back(w); }
  template <class Q> void seq(const char* w, const Q& q) { e(w, (long)q.size()); for (auto&& x : q) pt(w, x); } };
template <class K> struct Ob { const In& i; typedef typename K::l l;
  typename K::p p(gx::V v) const { return typename K::p(K::L(v.x * i.sc), K::L(v.y * i.sc)); }
  typename K::p p(int j) const { return p(i.w[j]); }
  typename K::v v(int j) const { return typename K::v(K::L(i.w[j].x * i.sc), K::L(i.w[j].y * i.sc)); }
  typename K::dv dv(int j) const { double m = std::hypot((double)i.w[j].x, (double)i.w[j].y); return typename K::dv(K::D(i.w[j].x / m), K::D(i.w[j].y / m)); }
  typename K::sv sv(int j) const { return typename K::sv(K::S(i.w[j].x * i.sc), K::S(i.w[j].y * i.sc)); }
  typename KX<K>::sg sg(int a, int b) const { return typename KX<K>::sg(p(a), p(b)); }
  typename KX<K>::pg pg() const { typename KX<K>::pg r; for (auto x : i.poly) r.push_back(p(x)); return r; }
  typename KX<K>::pg pg2() const { typename KX<K>::pg r; for (auto x : i.poly2) r.push_back(p(x)); return r; }
  typename KX<K>::pg pg3() const { typename KX<K>::pg r; for (auto x : i.poly3) r.push_back(p(x)); return r; }
  typename KX<K>::pl pl() const { typename KX<K>::pl r; for (auto x : i.line) r.push_back(p(x)); return r; }
  typename KX<K>::pl pl2() const { typename KX<K>::pl r; for (auto x : i.line2) r.push_back(p(x)); return r; }
  typename KX<K>::ci ci(int j) const { return typename KX<K>::ci(p(j), K::L(i.r)); }
  typename KX<K>::ci ci2(int j) const { return typename KX<K>::ci(p(j), K::L(i.r2)); }
  typename KX<K>::bb bb(int a, int b) const { using std::min; using std::max; gx::V A = i.w[a], B = i.w[b]; return typename KX<K>::bb(p(gx::V{min(A.x, B.x), min(A.y, B.y)}), p(gx::V{max(A.x, B.x) + (A.x == B.x), max(A.y, B.y) + (A.y == B.y)})); }
  typename KX<K>::ob ob(int a) const { return typename KX<K>::ob(p(a), typename K::dv(K::D(i.cs), K::D(i.sn)), typename K::dv(K::D(-i.sn), K::D(i.cs)), K::L(i.hx), K::L(i.hy)); } };
using namespace geometrix; using vp::Case;
template <class K> void op_point_point_distance(const In& i, Out& o) { Ob<K> b{i}; o.n("d2", point_point_distance_sqrd(b.p(0), b.p(1))); o.n("d", point_point_distance(b.p(0), b.p(1))); }
template <class K> void op_point_segment_distance(const In& i, Out& o) { Ob<K> b{i}; auto s = b.sg(1, 2); o.n("d2", point_segment_distance_sqrd(b.p(0), s)); o.n("d", point_segment_distance(b.p(0), s)); }
template <class K> void op_point_segment_closest_point(const In& i, Out& o) { Ob<K> b{i}; o.pt("p", point_segment_closest_point(b.p(0), b.sg(1, 2))); }
template <class K> void op_point_line_distance(const In& i, Out& o) { Ob<K> b{i}; o.n("d", point_line_distance(b.p(0), line<typename K::p>(b.p(1), b.p(2)))); }
template <class K> void op_segment_segment_distance(const In& i, Out& o) { Ob<K> b{i}; o.n("d2", segment_segment_distance_sqrd(b.sg(0, 1), b.sg(2, 3), K::C())); o.n("d", segment_segment_distance(b.sg(0, 1), b.sg(2, 3), K::C())); }
template <class K> void op_segment_segment_closest_point(const In& i, Out& o) { Ob<K> b{i}; typename K::d s = K::D(-1), t = K::D(-1); typename K::p c1(b.p(0)), c2(b.p(0)); o.n("d2", segment_segment_closest_point(b.p(0), b.p(1), b.p(2), b.p(3), s, t, c1, c2, K::C())); o.n("s", s); o.n("t", t); o.pt("c1", c1); o.pt("c2", c2); }
template <class K> void op_point_polygon_distance(const In& i, Out& o) { Ob<K> b{i}; o.n("d2", point_polygon_distance_sqrd(b.p(0), b.pg())); o.n("d", point_polygon_distance(b.p(0), b.pg())); }
template <class K> void op_point_polygon_closest_point(const In& i, Out& o) { Ob<K> b{i}; o.pt("p", point_polygon_closest_point(b.p(0), b.pg())); }
template <class K> void op_point_polyline_distance(const In& i, Out& o) { Ob<K> b{i}; o.n("d2", point_polyline_distance_sqrd(b.p(0), b.pl())); o.n("d", point_polyline_distance(b.p(0), b.pl())); }
template <class K> void op_point_polyline_closest_point(const In& i, Out& o) { Ob<K> b{i}; o.pt("p", point_polyline_closest_point(b.p(0), b.pl())); }
template <class K> void op_segment_polygon_distance(const In& i, Out& o) { Ob<K> b{i}; o.n("d2", segment_polygon_distance_sqrd(b.sg(0, 1), b.pg(), K::C())); o.n("d", segment_polygon_distance(b.sg(0, 1), b.pg(), K::C())); }
template <class K> void op_segment_polyline_distance(const In& i, Out& o) { Ob<K> b{i}; o.n("d2", segment_polyline_distance_sqrd(b.sg(0, 1), b.pl(), K::C())); o.n("d", segment_polyline_distance(b.sg(0, 1), b.pl(), K::C())); }
template <class K> void op_segment_polyline_closest_point(const In& i, Out& o) { Ob<K> b{i}; std::size_t n = 99; typename K::d s = K::D(-1), t = K::D(-1); typename K::p c1(b.p(0)), c2(b.p(0)); o.n("d2", segment_polyline_closest_point(b.sg(0, 1), b.pl(), n, s, t, c1, c2, K::C())); o.e("n", n); o.n("s", s); o.n("t", t); o.pt("c1", c1); o.pt("c2", c2); }
template <class K> void op_segment_polygon_closest_point(const In& i, Out& o) { Ob<K> b{i}; std::size_t n = 99; typename K::d s = K::D(-1), t = K::D(-1); typename K::p c1(b.p(0)), c2(b.p(0)); o.n("d2", segment_polygon_closest_point(b.p(0), b.p(1), b.pg(), n, s, t, c1, c2, K::C())); o.e("n", n); o.n("s", s); o.n("t", t); o.pt("c1", c1); o.pt("c2", c2); }
template <class K> void op_polygon_polygon_distance(const In& i, Out& o) { Ob<K> b{i}; o.n("d2", polygon_polygon_distance_sqrd(b.pg(), b.pg2(), K::C())); o.n("d", polygon_polygon_distance(b.pg(), b.pg2(), K::C())); }
template <class K> void op_polyline_polyline_distance(const In& i, Out& o) { Ob<K> b{i}; o.n("d2", polyline_polyline_distance_sqrd(b.pl(), b.pl2(), K::C())); o.n("d", polyline_polyline_distance(b.pl(), b.pl2(), K::C())); }
template <class K> void op_point_aabb_distance(const In& i, Out& o) { Ob<K> b{i}; o.n("d2", point_aabb_distance_sqrd(b.p(0), b.bb(1, 2))); o.n("d", point_aabb_distance(b.p(0), b.bb(1, 2))); o.pt("c", point_aabb_closest_point(b.p(0), b.bb(1, 2))); }
template <class K> void op_aabb_aabb_distance(const In& i, Out& o) { Ob<K> b{i}; o.n("d2", aabb_aabb_distance_sqrd(b.bb(0, 3), b.bb(1, 2))); o.n("d", aabb_aabb_distance(b.bb(0, 3), b.bb(1, 2))); }
template <class K> void op_point_obb_distance(const In& i, Out& o) { Ob<K> b{i}; o.n("d2", point_obb_distance_sqrd(b.p(0), b.ob(1))); o.n("d", point_obb_distance(b.p(0), b.ob(1))); o.pt("c", point_obb_closest_point(b.p(0), b.ob(1))); }
template <class K> void op_segment_obb_distance(const In& i, Out& o) { Ob<K> b{i}; o.n("d2", segment_obb_distance_sqrd(b.sg(0, 1), b.ob(2), K::C())); o.n("d", segment_obb_distance(b.sg(0, 1), b.ob(2), K::C())); }
template <class K> void op_get_orientation(const In& i, Out& o) { Ob<K> b{i}; o.e("o", get_orientation(b.p(0), b.p(1), b.p(2), K::C())); }
template <class K> void op_get_orientation_vectors(const In& i, Out& o) { Ob<K> b{i}; o.e("o", get_orientation(b.v(0), b.v(1), K::C())); }
template <class K> void op_oriented_intersection(const In& i, Out& o) { Ob<K> b{i}; o.e("o", oriented_intersection(b.p(0), b.p(1), b.p(2), b.p(3), K::C())); }
template <class K> void op_line_line_intersect(const In& i, Out& o) { Ob<K> b{i}; typename K::p x[2] = {b.p(0), b.p(0)}; auto r = line_line_intersect(b.p(0), b.p(1), b.p(2), b.p(3), x[0], K::C()); o.e("r", r); if (r == e_crossing) o.pt("x", x[0]); }
template <class K> void op_line_line_intersect_parameters(const In& i, Out& o) { Ob<K> b{i}; typename K::p x[2] = {b.p(0), b.p(0)}; typename K::d s = K::D(-1), t = K::D(-1); auto r = line_line_intersect(b.p(0), b.p(1), b.p(2), b.p(3), x[0], s, t, K::C()); o.e("r", r); if (r == e_crossing) { o.pt("x", x[0]); o.n("s", s); o.n("t", t); } }
template <class K> void op_line_segment_intersect(const In& i, Out& o) { Ob<K> b{i}; typename K::p x[2] = {b.p(0), b.p(0)}; auto r = line_segment_intersect(b.p(0), b.p(1), b.p(2), b.p(3), x[0], K::C()); o.e("r", r); if (r == e_crossing) o.pt("x", x[0]); }
template <class K> void op_segment_segment_intersection(const In& i, Out& o) { Ob<K> b{i}; typename K::p x[2] = {b.p(0), b.p(0)}; auto r = segment_segment_intersection(b.sg(0, 1), b.sg(2, 3), x, K::C()); o.e("r", r); if (r == e_crossing) o.pt("x", x[0]); if (r == e_overlapping) { o.pt("x", x[0]); o.pt("x", x[1]); } }
template <class K> void op_ray_aabb_intersection(const In& i, Out& o) { Ob<K> b{i}; typename K::l t = K::L(-1); typename K::p x(b.p(0)); bool r = ray_aabb_intersection(b.p(0), b.dv(4), b.bb(1, 2), t, x, K::C()); o.e("r", r); if (r) { o.n("t", t); o.pt("x", x); } }
template <class K> void op_segment_aabb_intersection(const In& i, Out& o) { Ob<K> b{i}; o.e("r", segment_aabb_intersection(b.p(0), b.p(1), b.bb(2, 3))); }
template <class K> void op_line_aabb_intersection(const In& i, Out& o) { Ob<K> b{i}; typename K::l t0 = K::L(-1), t1 = K::L(-1); typename K::p q0(b.p(0)), q1(b.p(0)); auto r = line_aabb_intersection(line<typename K::p>(b.p(0), b.p(1)), b.bb(2, 3), t0, q0, t1, q1, K::C()); o.e("r", r.is_intersecting()); if (r.is_intersecting()) { o.n("t", t0); o.n("t", t1); o.pt("q", q0); o.pt("q", q1); } }
template <class K> void op_polyline_aabb_intersection(const In& i, Out& o) { Ob<K> b{i}; o.e("r", polyline_aabb_intersection(b.pl(), b.bb(2, 3))); }
template <class K> void op_polygon_aabb_intersection(const In& i, Out& o) { Ob<K> b{i}; o.e("r", polygon_aabb_intersection(b.pg(), b.bb(2, 3))); }
template <class K> void op_aabb_aabb_intersection(const In& i, Out& o) { Ob<K> b{i}; o.e("r", aabb_aabb_intersection(b.bb(0, 1), b.bb(2, 3), K::C())); }
template <class K> void op_obb_obb_intersection(const In& i, Out& o) { Ob<K> b{i}; o.e("r", obb_obb_intersection(b.ob(0), b.ob(1), K::C())); }
template <class K> void op_ray_line_intersection(const In& i, Out& o) { Ob<K> b{i}; typename K::l t = K::L(-1); typename K::p x(b.p(0)); auto r = ray_line_intersection(b.p(0), b.dv(4), line<typename K::p>(b.p(1), b.p(2)), t, x, K::C()); o.e("r", r.is_intersecting()); if (r.is_intersecting()) { o.n("t", t); o.pt("x", x); } }
template <class K> void op_ray_segment_intersection(const In& i, Out& o) { Ob<K> b{i}; typename K::l t = K::L(-1); typename K::p x[2] = {b.p(0), b.p(0)}; auto r = ray_segment_intersection(b.p(0), b.dv(4), b.sg(1, 2), t, x, K::C()); o.e("r", r); if (r == e_crossing) { o.n("t", t); o.pt("x", x[0]); } }
template <class K> void op_ray_sphere_intersection(const In& i, Out& o) { Ob<K> b{i}; typename K::l t = K::L(-1); typename K::p x(b.p(0)); bool r = ray_sphere_intersection(b.p(0), b.dv(4), b.ci(1), t, x, K::C()); o.e("r", r); if (r) { o.n("t", t); o.pt("x", x); } }
template <class K> void op_segment_sphere_intersection(const In& i, Out& o) { Ob<K> b{i}; typename K::d t = K::D(-1); typename K::p x(b.p(0)); bool r = segment_sphere_intersection(b.sg(0, 1), b.ci(2), t, x, K::C()); o.e("r", r); if (r) { o.n("t", t); o.pt("x", x); } }
template <class K> void op_segment_capsule_intersection(const In& i, Out& o) { Ob<K> b{i}; typename K::d t = K::D(-1); typename K::p x(b.p(0)); bool r = segment_capsule_intersection(b.p(0), b.p(1), b.p(2), b.p(3), K::L(i.r), t, x, K::C()); o.e("r", r); if (r) { o.n("t", t); o.pt("x", x); } }
template <class K> void op_segment_plane_intersection(const In& i, Out& o) { Ob<K> b{i}; typename K::d t = K::D(-1); typename K::p x(b.p(0)); bool r = segment_plane_intersection(b.p(0), b.p(1), line<typename K::p>(b.p(2), b.p(3)), t, x); o.e("r", r); if (r) { o.n("t", t); o.pt("x", x); } }
template <class K> void op_segment_polygon_intersection(const In& i, Out& o) { Ob<K> b{i}; segment_polygon_intersection(b.sg(0, 1), b.pg(), [&](const typename KX<K>::sg& s) { o.pt("s", s.get_start()); o.pt("s", s.get_end()); }, K::C()); }
template <class K> void op_segment_polyline_intersect(const In& i, Out& o) { Ob<K> b{i}; o.e("r", segment_polyline_intersect(b.sg(0, 1), b.pl(), [&](intersection_type t, std::size_t a, std::size_t c, typename K::p x0, typename K::p x1) { o.e("t", t); o.pt("x", x0); return false; }, K::C())); }
template <class K> void op_polyline_polyline_intersect(const In& i, Out& o) { Ob<K> b{i}; o.e("r", polyline_polyline_intersect(b.pl(), b.pl2(), [&](intersection_type t, std::size_t, std::size_t, std::size_t, std::size_t, typename K::p x0, typename K::p x1) { o.e("t", t); o.pt("x", x0); return false; }, K::C())); }
template <class K> void op_sphere_aabb_intersection(const In& i, Out& o) { Ob<K> b{i}; o.e("r", sphere_aabb_intersection(b.ci(0), b.bb(1, 2))); typename K::p q(b.p(0)); bool r = sphere_aabb_intersection(b.ci(0), b.bb(1, 2), q); o.e("r", r); o.pt("q", q); }
template <class K> void op_sphere_obb_intersection(const In& i, Out& o) { Ob<K> b{i}; o.e("r", sphere_obb_intersection(b.ci(0), b.ob(1))); }
template <class K> void op_sphere_polyline_intersect(const In& i, Out& o) { Ob<K> b{i}; o.e("r", sphere_polyline_intersect(b.ci(0), b.pl(), [&](segment_sphere_intersection_result r, std::size_t, std::size_t, typename K::d, typename K::p x0, typename K::d, typename K::p x1) { o.e("t", r.is_t0_intersecting() + 2 * r.is_t1_intersecting()); if (r.is_t0_intersecting()) o.pt("x0", x0); if (r.is_t1_intersecting()) o.pt("x1", x1); return false; }, K::C())); }
template <class K> void op_sphere_sphere_intersection(const In& i, Out& o) { Ob<K> b{i}; auto r = sphere_sphere_intersection(b.ci(0), b.ci2(1), K::C()); o.e("n", (int)r.State); if (r.IntersectionPoint0) o.pt("p0", *r.IntersectionPoint0); if (r.IntersectionPoint1) o.pt("p1", *r.IntersectionPoint1); }
template <class K> void op_circle_circle_intersection(const In& i, Out& o) { Ob<K> b{i}; auto r = circle_circle_intersection(b.ci(0), b.ci2(1), K::C()); o.e("n", (int)r.State); if (r.IntersectionPoint0) o.pt("p0", *r.IntersectionPoint0); if (r.IntersectionPoint1) o.pt("p1", *r.IntersectionPoint1); }
template <class K> void op_convex_polygons_intersection(const In& i, Out& o) { Ob<K> b{i}; o.e("r", convex_polygons_intersection(b.pg2(), b.pg3(), K::C())); }
template <class K> void op_convex_polygon_polygon_intersection(const In& i, Out& o) { Ob<K> b{i}; o.e("t", (int)convex_polygon_polygon_intersection(b.pg2(), b.pg3(), [&](typename K::p q) { o.pt("x", q); }, K::C())); }
template <class K> void op_cohen_sutherland_line_clip(const In& i, Out& o) { Ob<K> b{i}; auto x0 = get<0>(b.p(0)), y0 = get<1>(b.p(0)), x1 = get<0>(b.p(1)), y1 = get<1>(b.p(1)); bool r = cohen_sutherland_line_clip(x0, y0, x1, y1, get<0>(b.bb(2, 3).get_lower_bound()), get<0>(b.bb(2, 3).get_upper_bound()), get<1>(b.bb(2, 3).get_lower_bound()), get<1>(b.bb(2, 3).get_upper_bound()), K::C()); o.e("r", r); if (r) { o.n("x0", x0); o.n("y0", y0); o.n("x1", x1); o.n("y1", y1); } }
template <class K> void op_is_segment_in_range_2d(const In& i, Out& o) { Ob<K> b{i}; o.e("r", is_segment_in_range_2d(b.sg(1, 2), b.v(4), b.v(5), b.p(0))); }
template <class K> void op_is_segment_in_range_2d_points(const In& i, Out& o) { Ob<K> b{i}; typename K::p x[2] = {b.p(0), b.p(0)}; bool r = is_segment_in_range_2d(b.sg(1, 2), b.v(4), b.v(5), b.p(0), x, K::C()); o.e("r", r); if (r) { o.pt("x", x[0]); o.pt("x", x[1]); } }
template <class K> void op_segment_projects_outside_polygon(const In& i, Out& o) { Ob<K> b{i}; o.e("r", segment_projects_outside_polygon(b.sg(0, 1), b.pg(), K::C())); }
template <class K> void op_moving_obb_obb_intersection(const In& i, Out& o) { Ob<K> b{i}; typename K::t t0 = K::T(-1), t1 = K::T(-1); bool r = moving_obb_obb_intersection(b.ob(0), b.sv(4), b.ob(1), b.sv(5), K::T(1), t0, t1); o.e("r", r); if (r) { o.n("t0", t0); o.n("t1", t1); } }
template <class K> void op_moving_sphere_aabb_intersection(const In& i, Out& o) { Ob<K> b{i}; typename K::t t = K::T(-1); typename K::p q(b.p(0)); bool r = moving_sphere_aabb_intersection(b.ci(0), b.sv(4), b.bb(1, 2), t, q, K::C()); o.e("r", r); if (r) { o.n("t", t); o.pt("q", q); } }
template <class K> void op_moving_sphere_obb_intersection(const In& i, Out& o) { Ob<K> b{i}; typename K::t t = K::T(-1); typename K::p q(b.p(0)); bool r = moving_sphere_obb_intersection(b.ci(0), b.sv(4), b.ob(1), t, q, K::C()); o.e("r", r); if (r) { o.n("t", t); o.pt("q", q); } }
template <class K> void op_moving_sphere_plane_intersection(const In& i, Out& o) { Ob<K> b{i}; typename K::t t = K::T(-1); typename K::p q(b.p(0)); bool r = moving_sphere_plane_intersection(b.ci(0), b.sv(4), line<typename K::p>(b.p(1), b.p(2)), t, q, K::C()); o.e("r", r); if (r) { o.n("t", t); o.pt("q", q); } }
template <class K> void op_moving_sphere_segment_intersection(const In& i, Out& o) { Ob<K> b{i}; typename K::t t = K::T(-1); typename K::p q(b.p(0)); bool r = moving_sphere_segment_intersection(b.ci(0), b.sv(4), b.sg(1, 2), t, q, K::C()); o.e("r", r); if (r) { o.n("t", t); o.pt("q", q); } }
template <class K> void op_moving_sphere_sphere_intersection(const In& i, Out& o) { Ob<K> b{i}; typename K::t t = K::T(-1); typename K::p q(b.p(0)); bool r = moving_sphere_sphere_intersection(b.ci(0), b.ci2(1), b.sv(4), b.sv(5), t, q, K::C()); o.e("r", r); if (r) { o.n("t", t); o.pt("q", q); } }
template <class K> void op_moving_convex_polygons_intersection(const In& i, Out& o) { Ob<K> b{i}; typename K::t t0 = K::T(-1), t1 = K::T(-1); bool r = moving_convex_polygons_intersection(b.pg2(), b.sv(4), b.pg3(), b.sv(5), K::T(1), t0, t1, K::C()); o.e("r", r); if (r) { o.n("t0", t0); o.n("t1", t1); } }
template <class K> void op_point_in_polygon(const In& i, Out& o) { Ob<K> b{i}; o.e("in", point_in_polygon(b.p(0), b.pg())); o.e("inc", point_in_convex_polygon(b.p(0), b.pg2(), K::C())); }
template <class K> void op_point_polygon_containment_or_on_border(const In& i, Out& o) { Ob<K> b{i}; o.e("c", (int)point_polygon_containment_or_on_border(b.p(0), b.pg(), K::C())); }
template <class K> void op_point_in_triangle(const In& i, Out& o) { Ob<K> b{i}; o.e("in", point_in_triangle(b.p(0), b.p(1), b.p(2), b.p(3), K::C())); }
template <class K> void op_segment_mid_point(const In& i, Out& o) { Ob<K> b{i}; o.pt("m", segment_mid_point(b.sg(0, 1))); }
template <class K> void op_polyline_length(const In& i, Out& o) { Ob<K> b{i}; o.n("l", polyline_length(b.pl())); o.n("lg", polygon_length(b.pg())); }
template <class K> void op_polyline_mid_point(const In& i, Out& o) { Ob<K> b{i}; o.pt("m", polyline_mid_point(b.pl())); }
template <class K> void op_clip_polyline_ends(const In& i, Out& o) { Ob<K> b{i}; auto q = clip_polyline_ends(b.pl(), K::L(i.s * raw(polyline_length(b.pl())) / 2), K::C()); o.seq("clip", q); }
template <class K> void op_polyline_total_curvature(const In& i, Out& o) { Ob<K> b{i}; o.n("k", polyline_total_curvature(b.pl())); }
template <class K> void op_polyline_signed_curvature_at_index(const In& i, Out& o) { Ob<K> b{i}; o.n("k", polyline_signed_curvature_at_index(b.pl(), 1)); }
template <class K> void op_ramer_douglas_peucker_algorithm(const In& i, Out& o) { Ob<K> b{i}; auto q = ramer_douglas_peucker_algorithm(b.pl(), K::L(i.r)); o.seq("rdp", q); }
template <class K> void op_is_polygon_simple(const In& i, Out& o) { Ob<K> b{i}; o.e("s", is_polygon_simple(b.pg(), K::C())); }
template <class K> void op_is_polygon_simple_memoized(const In& i, Out& o) { Ob<K> b{i}; o.e("s", is_polygon_simple_memoized(b.pg(), K::C())); }
template <class K> void op_polyline_self_intersection(const In& i, Out& o) { Ob<K> b{i}; o.e("s", polyline_self_intersection(b.pl2(), [&](std::size_t a, std::size_t c, intersection_type t, typename K::p x0, typename K::p x1) { o.e("a", a); o.e("c", c); o.e("t", t); return false; }, K::C())); }
template <class K> void op_remove_collinear_points_polygon(const In& i, Out& o) { Ob<K> b{i}; o.seq("c", remove_collinear_points_polygon(b.pg(), K::C())); }
template <class K> void op_remove_collinear_points_polyline(const In& i, Out& o) { Ob<K> b{i}; o.seq("c", remove_collinear_points_polyline(b.pl(), K::C())); }
template <class K> void op_coalesce_adjacent_points(const In& i, Out& o) { Ob<K> b{i}; o.seq("c", coalesce_adjacent_points_polyline(b.pl(), K::C())); o.seq("d", coalesce_adjacent_points_polygon(b.pg(), K::C())); }
template <class K> void op_clean(const In& i, Out& o) { Ob<K> b{i}; o.seq("c", clean_polygon(b.pg(), K::C())); o.seq("d", clean_polyline(b.pl(), K::C())); }
template <class K> void op_polyline_offset(const In& i, Out& o) { Ob<K> b{i}; auto q = polyline_offset(b.pl(), oriented_left, K::L(i.r), K::C()); o.seq("off", q); }
template <class K> void op_point_polyline_orientation(const In& i, Out& o) { Ob<K> b{i}; o.e("o", point_polyline_orientation(b.p(0), b.pl(), K::C())); }
template <class K> void op_polyline_split(const In& i, Out& o) { Ob<K> b{i}; auto q = polyline_split(b.pl(), K::L(i.s * raw(polyline_length(b.pl())))); o.seq("a", std::get<0>(q)); o.seq("b", std::get<1>(q)); }
template <class K> void op_get_area(const In& i, Out& o) { Ob<K> b{i}; o.n("a", get_area(b.pg())); }
template <class K> void op_get_signed_area(const In& i, Out& o) { Ob<K> b{i}; o.n("a", get_signed_area(b.pg())); }
template <class K> void op_get_centroid(const In& i, Out& o) { Ob<K> b{i}; o.pt("c", get_centroid(b.pg())); }
template <class K> void op_get_bounds(const In& i, Out& o) { Ob<K> b{i}; auto q = get_bounds(b.pg(), K::C()); o.n("x", std::get<0>(q)); o.n("x", std::get<1>(q)); o.n("x", std::get<2>(q)); o.n("x", std::get<3>(q)); }
template <class K> void op_make_aabb(const In& i, Out& o) { Ob<K> b{i}; auto q = make_aabb<typename K::p>(b.pg()); o.pt("lo", q.get_lower_bound()); o.pt("hi", q.get_upper_bound()); o.e("in", q.intersects(b.p(0))); }
template <class K> void op_make_obb(const In& i, Out& o) { Ob<K> b{i}; typename K::v u = K::L(i.hx) * typename K::dv(K::D(i.cs), K::D(i.sn)); typename K::v v = K::L(i.hy) * typename K::dv(K::D(-i.sn), K::D(i.cs)); rectangle<typename K::p> r(b.p(0), construct<typename K::p>(b.p(0) + u), construct<typename K::p>(b.p(0) + u + v), construct<typename K::p>(b.p(0) + v)); auto q = make_obb<typename K::p, typename K::dv>(r); o.pt("c", q.get_center()); o.pt("u", q.get_axis(0)); o.pt("v", q.get_axis(1)); o.n("hu", q.get_halfwidth(0)); o.n("hv", q.get_halfwidth(1)); }
template <class K> void op_polygon_polygon_containment(const In& i, Out& o) { Ob<K> b{i}; o.e("r", polygon_polygon_containment(b.pg2(), b.pg(), K::C())); }
template <class K> void op_polygon_polyline_containment(const In& i, Out& o) { Ob<K> b{i}; o.e("r", polygon_polyline_containment(b.pl(), b.pg(), K::C())); }
template <class K> void op_are_congruent(const In& i, Out& o) { Ob<K> b{i}; o.e("r", are_polygons_congruent(b.pg(), b.pg2(), K::C())); o.e("r", are_polylines_congruent(b.pl(), b.pl2(), K::C())); }
template <class K> void op_polygon_subsequence(const In& i, Out& o) { Ob<K> b{i}; auto q = polygon_subsequence(b.pg(), b.p(i.poly[0]), K::L(i.r), K::C()); o.seq("q", q); }
template <class K> void op_products_and_norms(const In& i, Out& o) { Ob<K> b{i}; o.n("d", dot_product(b.v(0), b.v(1))); o.n("x", exterior_product_area(b.v(0), b.v(1))); o.n("m", magnitude(b.v(4))); o.n("m2", magnitude_sqrd(b.v(4))); o.pt("n", normalize(b.v(4))); }
template <class K> void op_angle_from_a_to_b(const In& i, Out& o) { Ob<K> b{i}; o.n("a", angle_from_a_to_b(b.p(1), b.p(2))); }
template <class K> void op_is_vector_between(const In& i, Out& o) { Ob<K> b{i}; o.e("r", is_vector_between(b.v(4), b.v(5), b.v(0), i.flag, K::C())); }
template <class K> void op_lerp(const In& i, Out& o) { Ob<K> b{i}; if (gx::cross(i.w[4], i.w[5]) == 0 && gx::dot(i.w[4], i.w[5]) < 0) return; o.pt("v", lerp(b.v(4), b.v(5), i.s)); }
template <class K> void op_bisect(const In& i, Out& o) { Ob<K> b{i}; if (gx::cross(i.w[4], i.w[5]) == 0 && gx::dot(i.w[4], i.w[5]) < 0) return; auto z = bisect(b.v(4), b.v(5)); o.pt("v", z); }
template <class K> void op_slerp(const In& i, Out& o) { Ob<K> b{i}; if (gx::cross(i.w[4], i.w[5]) == 0 && gx::dot(i.w[4], i.w[5]) < 0) return; o.pt("v", slerp(normalize(b.v(4)), normalize(b.v(5)), i.s)); }
template <class K> void op_is_antiparallel(const In& i, Out& o) { Ob<K> b{i}; o.e("v", is_antiparallel(b.v(4), b.v(5), K::C())); }
template <class K> void op_perp(const In& i, Out& o) { Ob<K> b{i}; o.pt("v", perp(b.v(4))); }
template <class K> void op_affine_expressions(const In& i, Out& o) { Ob<K> b{i}; auto q = construct<typename K::p>(b.p(0) + K::D(i.s) * b.v(1)); o.pt("q", q); typename K::v w = b.p(1) - b.p(2); o.pt("w", w); auto m = construct<typename K::p>(b.p(0) + 0.5 * (b.p(1) - b.p(0)) - b.v(3)); o.pt("m", m); typename K::v z = (b.v(0) - 2.0 * b.v(1)) / 4.0; o.pt("z", z); typename K::v y = -b.v(0); o.pt("y", y); }
template <class K> void op_unit_conversion_expressions(const In& i, Out& o) { Ob<K> b{i}; auto q = construct<typename K::p>(b.p(0) + K::L(i.r) * b.dv(4)); o.pt("q", q); auto s = construct<typename K::p>(b.p(0) + K::T(0.5) * b.sv(4)); o.pt("s", s); }
template <class K> void op_numeric_sequence_equals(const In& i, Out& o) { Ob<K> b{i}; o.e("r", numeric_sequence_equals(b.p(0), b.p(1), K::C())); }
template <class K> void op_lexicographically_less_than(const In& i, Out& o) { Ob<K> b{i}; o.e("l", lexicographically_less_than(b.p(0), b.p(1), K::C())); }
template <class K> void op_rotate_point(const In& i, Out& o) { Ob<K> b{i}; o.pt("p", rotate_point(b.p(0), b.dv(4), b.dv(5), b.p(1))); }
template <class K> void op_grid_traits(const In& i, Out& o) { Ob<K> b{i}; grid_traits<typename K::l> g(K::L(-16 * i.sc), K::L(16 * i.sc), K::L(-16 * i.sc), K::L(16 * i.sc), K::L(i.sc * 1.25)); o.e("w", g.get_width()); o.e("h", g.get_height()); o.e("i", g.get_x_index(K::L(i.w[0].x * i.sc))); o.e("j", g.get_y_index(K::L(i.w[0].y * i.sc))); o.pt("c", g.get_cell_centroid(3, 5)); o.e("c", g.is_contained(b.p(0))); }
template <class K> void op_fast_voxel_grid_traversal(const In& i, Out& o) { Ob<K> b{i}; grid_traits<typename K::l> g(K::L(-16 * i.sc), K::L(16 * i.sc), K::L(-16 * i.sc), K::L(16 * i.sc), K::L(i.sc * 1.25)); fast_voxel_grid_traversal(g, b.sg(0, 1), [&](std::uint32_t a, std::uint32_t c) { o.e("i", a); o.e("j", c); }, K::C()); }
#ifdef VP_NO_UNITS
#define VP_KU(X) 0
#else
#define VP_KU(X) X
#endif
#ifdef VP_NO_USER
#define VP_KF(X) 0
#define VP_KT(X) 0
#else
#define VP_KF(X) X
#define VP_KT(X) X
#endif
typedef void (*Fn)(const In&, Out&); struct Op { const char* name; Fn f[4]; };
static const Op ops_distances[] = {
    {"point_point_distance", {op_point_point_distance<KD>, VP_KU(op_point_point_distance<KU>), VP_KF(op_point_point_distance<KF>), VP_KT(op_point_point_distance<KT>)}},
    {"point_segment_distance", {op_point_segment_distance<KD>, VP_KU(op_point_segment_distance<KU>), 0, VP_KT(op_point_segment_distance<KT>)}},
    {"point_segment_closest_point", {op_point_segment_closest_point<KD>, VP_KU(op_point_segment_closest_point<KU>), 0, VP_KT(op_point_segment_closest_point<KT>)}},
    {"point_line_distance", {op_point_line_distance<KD>, VP_KU(op_point_line_distance<KU>), VP_KF(op_point_line_distance<KF>), VP_KT(op_point_line_distance<KT>)}},
    {"segment_segment_distance", {op_segment_segment_distance<KD>, VP_KU(op_segment_segment_distance<KU>), 0, VP_KT(op_segment_segment_distance<KT>)}},
    {"segment_segment_closest_point", {op_segment_segment_closest_point<KD>, VP_KU(op_segment_segment_closest_point<KU>), 0, VP_KT(op_segment_segment_closest_point<KT>)}},
    {"point_polygon_distance", {op_point_polygon_distance<KD>, VP_KU(op_point_polygon_distance<KU>), 0, VP_KT(op_point_polygon_distance<KT>)}},
    {"point_polygon_closest_point", {op_point_polygon_closest_point<KD>, VP_KU(op_point_polygon_closest_point<KU>), 0, VP_KT(op_point_polygon_closest_point<KT>)}},
    {"point_polyline_distance", {op_point_polyline_distance<KD>, VP_KU(op_point_polyline_distance<KU>), 0, VP_KT(op_point_polyline_distance<KT>)}},
    {"point_polyline_closest_point", {op_point_polyline_closest_point<KD>, VP_KU(op_point_polyline_closest_point<KU>), 0, VP_KT(op_point_polyline_closest_point<KT>)}},
    {"segment_polygon_distance", {op_segment_polygon_distance<KD>, VP_KU(op_segment_polygon_distance<KU>), 0, 0}},
    {"segment_polyline_distance", {op_segment_polyline_distance<KD>, VP_KU(op_segment_polyline_distance<KU>), 0, 0}},
    {"segment_polyline_closest_point", {op_segment_polyline_closest_point<KD>, VP_KU(op_segment_polyline_closest_point<KU>), 0, VP_KT(op_segment_polyline_closest_point<KT>)}},
    {"segment_polygon_closest_point", {op_segment_polygon_closest_point<KD>, VP_KU(op_segment_polygon_closest_point<KU>), 0, VP_KT(op_segment_polygon_closest_point<KT>)}},
    {"polygon_polygon_distance", {op_polygon_polygon_distance<KD>, VP_KU(op_polygon_polygon_distance<KU>), 0, 0}},
    {"polyline_polyline_distance", {op_polyline_polyline_distance<KD>, VP_KU(op_polyline_polyline_distance<KU>), 0, 0}},
    {"point_aabb_distance", {op_point_aabb_distance<KD>, VP_KU(op_point_aabb_distance<KU>), VP_KF(op_point_aabb_distance<KF>), VP_KT(op_point_aabb_distance<KT>)}},
    {"aabb_aabb_distance", {op_aabb_aabb_distance<KD>, VP_KU(op_aabb_aabb_distance<KU>), VP_KF(op_aabb_aabb_distance<KF>), VP_KT(op_aabb_aabb_distance<KT>)}},
    {"point_obb_distance", {op_point_obb_distance<KD>, VP_KU(op_point_obb_distance<KU>), VP_KF(op_point_obb_distance<KF>), VP_KT(op_point_obb_distance<KT>)}},
    {"segment_obb_distance", {op_segment_obb_distance<KD>, VP_KU(op_segment_obb_distance<KU>), 0, 0}},
};
static const Op ops_static_intersections[] = {
    {"get_orientation", {op_get_orientation<KD>, VP_KU(op_get_orientation<KU>), VP_KF(op_get_orientation<KF>), VP_KT(op_get_orientation<KT>)}},
    {"get_orientation_vectors", {op_get_orientation_vectors<KD>, VP_KU(op_get_orientation_vectors<KU>), VP_KF(op_get_orientation_vectors<KF>), VP_KT(op_get_orientation_vectors<KT>)}},
    {"oriented_intersection", {op_oriented_intersection<KD>, VP_KU(op_oriented_intersection<KU>), VP_KF(op_oriented_intersection<KF>), VP_KT(op_oriented_intersection<KT>)}},
    {"line_line_intersect", {op_line_line_intersect<KD>, VP_KU(op_line_line_intersect<KU>), 0, VP_KT(op_line_line_intersect<KT>)}},
    {"line_line_intersect_parameters", {op_line_line_intersect_parameters<KD>, VP_KU(op_line_line_intersect_parameters<KU>), 0, VP_KT(op_line_line_intersect_parameters<KT>)}},
    {"line_segment_intersect", {op_line_segment_intersect<KD>, VP_KU(op_line_segment_intersect<KU>), 0, VP_KT(op_line_segment_intersect<KT>)}},
    {"segment_segment_intersection", {op_segment_segment_intersection<KD>, VP_KU(op_segment_segment_intersection<KU>), 0, VP_KT(op_segment_segment_intersection<KT>)}},
    {"ray_aabb_intersection", {op_ray_aabb_intersection<KD>, VP_KU(op_ray_aabb_intersection<KU>), 0, VP_KT(op_ray_aabb_intersection<KT>)}},
    {"segment_aabb_intersection", {op_segment_aabb_intersection<KD>, VP_KU(op_segment_aabb_intersection<KU>), 0, VP_KT(op_segment_aabb_intersection<KT>)}},
    {"line_aabb_intersection", {op_line_aabb_intersection<KD>, VP_KU(op_line_aabb_intersection<KU>), 0, VP_KT(op_line_aabb_intersection<KT>)}},
    {"polyline_aabb_intersection", {op_polyline_aabb_intersection<KD>, VP_KU(op_polyline_aabb_intersection<KU>), 0, VP_KT(op_polyline_aabb_intersection<KT>)}},
    {"polygon_aabb_intersection", {op_polygon_aabb_intersection<KD>, VP_KU(op_polygon_aabb_intersection<KU>), 0, VP_KT(op_polygon_aabb_intersection<KT>)}},
    {"aabb_aabb_intersection", {op_aabb_aabb_intersection<KD>, VP_KU(op_aabb_aabb_intersection<KU>), VP_KF(op_aabb_aabb_intersection<KF>), VP_KT(op_aabb_aabb_intersection<KT>)}},
    {"obb_obb_intersection", {op_obb_obb_intersection<KD>, VP_KU(op_obb_obb_intersection<KU>), 0, VP_KT(op_obb_obb_intersection<KT>)}},
    {"ray_line_intersection", {op_ray_line_intersection<KD>, 0, 0, VP_KT(op_ray_line_intersection<KT>)}},
    {"ray_segment_intersection", {op_ray_segment_intersection<KD>, VP_KU(op_ray_segment_intersection<KU>), 0, VP_KT(op_ray_segment_intersection<KT>)}},
    {"ray_sphere_intersection", {op_ray_sphere_intersection<KD>, 0, 0, VP_KT(op_ray_sphere_intersection<KT>)}},
    {"segment_sphere_intersection", {op_segment_sphere_intersection<KD>, 0, 0, VP_KT(op_segment_sphere_intersection<KT>)}},
    {"segment_capsule_intersection", {op_segment_capsule_intersection<KD>, 0, 0, VP_KT(op_segment_capsule_intersection<KT>)}},
    {"segment_plane_intersection", {op_segment_plane_intersection<KD>, VP_KU(op_segment_plane_intersection<KU>), 0, 0}},
    {"segment_polygon_intersection", {op_segment_polygon_intersection<KD>, VP_KU(op_segment_polygon_intersection<KU>), 0, VP_KT(op_segment_polygon_intersection<KT>)}},
    {"segment_polyline_intersect", {op_segment_polyline_intersect<KD>, VP_KU(op_segment_polyline_intersect<KU>), 0, 0}},
    {"polyline_polyline_intersect", {op_polyline_polyline_intersect<KD>, VP_KU(op_polyline_polyline_intersect<KU>), 0, 0}},
    {"sphere_aabb_intersection", {op_sphere_aabb_intersection<KD>, VP_KU(op_sphere_aabb_intersection<KU>), 0, VP_KT(op_sphere_aabb_intersection<KT>)}},
    {"sphere_obb_intersection", {op_sphere_obb_intersection<KD>, VP_KU(op_sphere_obb_intersection<KU>), VP_KF(op_sphere_obb_intersection<KF>), VP_KT(op_sphere_obb_intersection<KT>)}},
    {"sphere_polyline_intersect", {op_sphere_polyline_intersect<KD>, VP_KU(op_sphere_polyline_intersect<KU>), 0, 0}},
    {"sphere_sphere_intersection", {op_sphere_sphere_intersection<KD>, VP_KU(op_sphere_sphere_intersection<KU>), VP_KF(op_sphere_sphere_intersection<KF>), VP_KT(op_sphere_sphere_intersection<KT>)}},
    {"circle_circle_intersection", {op_circle_circle_intersection<KD>, VP_KU(op_circle_circle_intersection<KU>), VP_KF(op_circle_circle_intersection<KF>), VP_KT(op_circle_circle_intersection<KT>)}},
    {"convex_polygons_intersection", {op_convex_polygons_intersection<KD>, VP_KU(op_convex_polygons_intersection<KU>), VP_KF(op_convex_polygons_intersection<KF>), VP_KT(op_convex_polygons_intersection<KT>)}},
    {"convex_polygon_polygon_intersection", {op_convex_polygon_polygon_intersection<KD>, VP_KU(op_convex_polygon_polygon_intersection<KU>), 0, 0}},
    {"cohen_sutherland_line_clip", {op_cohen_sutherland_line_clip<KD>, VP_KU(op_cohen_sutherland_line_clip<KU>), VP_KF(op_cohen_sutherland_line_clip<KF>), VP_KT(op_cohen_sutherland_line_clip<KT>)}},
    {"is_segment_in_range_2d", {op_is_segment_in_range_2d<KD>, VP_KU(op_is_segment_in_range_2d<KU>), 0, VP_KT(op_is_segment_in_range_2d<KT>)}},
    {"is_segment_in_range_2d_points", {op_is_segment_in_range_2d_points<KD>, VP_KU(op_is_segment_in_range_2d_points<KU>), 0, VP_KT(op_is_segment_in_range_2d_points<KT>)}},
    {"segment_projects_outside_polygon", {op_segment_projects_outside_polygon<KD>, VP_KU(op_segment_projects_outside_polygon<KU>), 0, VP_KT(op_segment_projects_outside_polygon<KT>)}},
};
static const Op ops_motion[] = {
    {"moving_obb_obb_intersection", {op_moving_obb_obb_intersection<KD>, VP_KU(op_moving_obb_obb_intersection<KU>), 0, VP_KT(op_moving_obb_obb_intersection<KT>)}},
    {"moving_sphere_aabb_intersection", {op_moving_sphere_aabb_intersection<KD>, VP_KU(op_moving_sphere_aabb_intersection<KU>), 0, 0}},
    {"moving_sphere_obb_intersection", {op_moving_sphere_obb_intersection<KD>, VP_KU(op_moving_sphere_obb_intersection<KU>), 0, 0}},
    {"moving_sphere_plane_intersection", {op_moving_sphere_plane_intersection<KD>, VP_KU(op_moving_sphere_plane_intersection<KU>), 0, VP_KT(op_moving_sphere_plane_intersection<KT>)}},
    {"moving_sphere_segment_intersection", {op_moving_sphere_segment_intersection<KD>, VP_KU(op_moving_sphere_segment_intersection<KU>), 0, VP_KT(op_moving_sphere_segment_intersection<KT>)}},
    {"moving_sphere_sphere_intersection", {op_moving_sphere_sphere_intersection<KD>, VP_KU(op_moving_sphere_sphere_intersection<KU>), 0, 0}},
    {"moving_convex_polygons_intersection", {op_moving_convex_polygons_intersection<KD>, 0, VP_KF(op_moving_convex_polygons_intersection<KF>), VP_KT(op_moving_convex_polygons_intersection<KT>)}},
};
static const Op ops_containment_and_sequences[] = {
    {"point_in_polygon", {op_point_in_polygon<KD>, VP_KU(op_point_in_polygon<KU>), VP_KF(op_point_in_polygon<KF>), VP_KT(op_point_in_polygon<KT>)}},
    {"point_polygon_containment_or_on_border", {op_point_polygon_containment_or_on_border<KD>, VP_KU(op_point_polygon_containment_or_on_border<KU>), VP_KF(op_point_polygon_containment_or_on_border<KF>), VP_KT(op_point_polygon_containment_or_on_border<KT>)}},
    {"point_in_triangle", {op_point_in_triangle<KD>, VP_KU(op_point_in_triangle<KU>), VP_KF(op_point_in_triangle<KF>), VP_KT(op_point_in_triangle<KT>)}},
    {"segment_mid_point", {op_segment_mid_point<KD>, VP_KU(op_segment_mid_point<KU>), VP_KF(op_segment_mid_point<KF>), VP_KT(op_segment_mid_point<KT>)}},
    {"polyline_length", {op_polyline_length<KD>, VP_KU(op_polyline_length<KU>), VP_KF(op_polyline_length<KF>), VP_KT(op_polyline_length<KT>)}},
    {"polyline_mid_point", {op_polyline_mid_point<KD>, VP_KU(op_polyline_mid_point<KU>), VP_KF(op_polyline_mid_point<KF>), VP_KT(op_polyline_mid_point<KT>)}},
    {"clip_polyline_ends", {op_clip_polyline_ends<KD>, VP_KU(op_clip_polyline_ends<KU>), 0, 0}},
    {"polyline_total_curvature", {op_polyline_total_curvature<KD>, VP_KU(op_polyline_total_curvature<KU>), VP_KF(op_polyline_total_curvature<KF>), VP_KT(op_polyline_total_curvature<KT>)}},
    {"polyline_signed_curvature_at_index", {op_polyline_signed_curvature_at_index<KD>, VP_KU(op_polyline_signed_curvature_at_index<KU>), VP_KF(op_polyline_signed_curvature_at_index<KF>), VP_KT(op_polyline_signed_curvature_at_index<KT>)}},
    {"ramer_douglas_peucker_algorithm", {op_ramer_douglas_peucker_algorithm<KD>, VP_KU(op_ramer_douglas_peucker_algorithm<KU>), VP_KF(op_ramer_douglas_peucker_algorithm<KF>), VP_KT(op_ramer_douglas_peucker_algorithm<KT>)}},
    {"is_polygon_simple", {op_is_polygon_simple<KD>, VP_KU(op_is_polygon_simple<KU>), 0, VP_KT(op_is_polygon_simple<KT>)}},
    {"is_polygon_simple_memoized", {op_is_polygon_simple_memoized<KD>, VP_KU(op_is_polygon_simple_memoized<KU>), 0, VP_KT(op_is_polygon_simple_memoized<KT>)}},
    {"polyline_self_intersection", {op_polyline_self_intersection<KD>, VP_KU(op_polyline_self_intersection<KU>), 0, VP_KT(op_polyline_self_intersection<KT>)}},
    {"remove_collinear_points_polygon", {op_remove_collinear_points_polygon<KD>, VP_KU(op_remove_collinear_points_polygon<KU>), 0, VP_KT(op_remove_collinear_points_polygon<KT>)}},
    {"remove_collinear_points_polyline", {op_remove_collinear_points_polyline<KD>, VP_KU(op_remove_collinear_points_polyline<KU>), 0, VP_KT(op_remove_collinear_points_polyline<KT>)}},
    {"coalesce_adjacent_points", {op_coalesce_adjacent_points<KD>, VP_KU(op_coalesce_adjacent_points<KU>), VP_KF(op_coalesce_adjacent_points<KF>), VP_KT(op_coalesce_adjacent_points<KT>)}},
    {"clean", {op_clean<KD>, VP_KU(op_clean<KU>), 0, VP_KT(op_clean<KT>)}},
    {"polyline_offset", {op_polyline_offset<KD>, VP_KU(op_polyline_offset<KU>), 0, VP_KT(op_polyline_offset<KT>)}},
    {"point_polyline_orientation", {op_point_polyline_orientation<KD>, VP_KU(op_point_polyline_orientation<KU>), 0, VP_KT(op_point_polyline_orientation<KT>)}},
    {"polyline_split", {op_polyline_split<KD>, VP_KU(op_polyline_split<KU>), VP_KF(op_polyline_split<KF>), VP_KT(op_polyline_split<KT>)}},
    {"get_area", {op_get_area<KD>, VP_KU(op_get_area<KU>), VP_KF(op_get_area<KF>), VP_KT(op_get_area<KT>)}},
    {"get_signed_area", {op_get_signed_area<KD>, VP_KU(op_get_signed_area<KU>), VP_KF(op_get_signed_area<KF>), VP_KT(op_get_signed_area<KT>)}},
    {"get_centroid", {op_get_centroid<KD>, VP_KU(op_get_centroid<KU>), VP_KF(op_get_centroid<KF>), VP_KT(op_get_centroid<KT>)}},
    {"get_bounds", {op_get_bounds<KD>, VP_KU(op_get_bounds<KU>), VP_KF(op_get_bounds<KF>), VP_KT(op_get_bounds<KT>)}},
    {"make_aabb", {op_make_aabb<KD>, VP_KU(op_make_aabb<KU>), VP_KF(op_make_aabb<KF>), VP_KT(op_make_aabb<KT>)}},
    {"make_obb", {op_make_obb<KD>, VP_KU(op_make_obb<KU>), 0, 0}},
    {"polygon_polygon_containment", {op_polygon_polygon_containment<KD>, VP_KU(op_polygon_polygon_containment<KU>), 0, VP_KT(op_polygon_polygon_containment<KT>)}},
    {"polygon_polyline_containment", {op_polygon_polyline_containment<KD>, VP_KU(op_polygon_polyline_containment<KU>), 0, VP_KT(op_polygon_polyline_containment<KT>)}},
    {"are_congruent", {op_are_congruent<KD>, VP_KU(op_are_congruent<KU>), VP_KF(op_are_congruent<KF>), VP_KT(op_are_congruent<KT>)}},
    {"polygon_subsequence", {op_polygon_subsequence<KD>, VP_KU(op_polygon_subsequence<KU>), 0, VP_KT(op_polygon_subsequence<KT>)}},
};
static const Op ops_vectors_and_grids[] = {
    {"products_and_norms", {op_products_and_norms<KD>, VP_KU(op_products_and_norms<KU>), VP_KF(op_products_and_norms<KF>), VP_KT(op_products_and_norms<KT>)}},
    {"angle_from_a_to_b", {op_angle_from_a_to_b<KD>, VP_KU(op_angle_from_a_to_b<KU>), VP_KF(op_angle_from_a_to_b<KF>), VP_KT(op_angle_from_a_to_b<KT>)}},
    {"is_vector_between", {op_is_vector_between<KD>, VP_KU(op_is_vector_between<KU>), VP_KF(op_is_vector_between<KF>), VP_KT(op_is_vector_between<KT>)}},
    {"lerp", {op_lerp<KD>, VP_KU(op_lerp<KU>), VP_KF(op_lerp<KF>), VP_KT(op_lerp<KT>)}},
    {"bisect", {op_bisect<KD>, VP_KU(op_bisect<KU>), VP_KF(op_bisect<KF>), VP_KT(op_bisect<KT>)}},
    {"slerp", {op_slerp<KD>, VP_KU(op_slerp<KU>), VP_KF(op_slerp<KF>), VP_KT(op_slerp<KT>)}},
    {"is_antiparallel", {op_is_antiparallel<KD>, VP_KU(op_is_antiparallel<KU>), VP_KF(op_is_antiparallel<KF>), VP_KT(op_is_antiparallel<KT>)}},
    {"perp", {op_perp<KD>, VP_KU(op_perp<KU>), VP_KF(op_perp<KF>), VP_KT(op_perp<KT>)}},
    {"affine_expressions", {op_affine_expressions<KD>, VP_KU(op_affine_expressions<KU>), VP_KF(op_affine_expressions<KF>), VP_KT(op_affine_expressions<KT>)}},
    {"unit_conversion_expressions", {op_unit_conversion_expressions<KD>, VP_KU(op_unit_conversion_expressions<KU>), VP_KF(op_unit_conversion_expressions<KF>), VP_KT(op_unit_conversion_expressions<KT>)}},
    {"numeric_sequence_equals", {op_numeric_sequence_equals<KD>, VP_KU(op_numeric_sequence_equals<KU>), VP_KF(op_numeric_sequence_equals<KF>), VP_KT(op_numeric_sequence_equals<KT>)}},
    {"lexicographically_less_than", {op_lexicographically_less_than<KD>, VP_KU(op_lexicographically_less_than<KU>), VP_KF(op_lexicographically_less_than<KF>), VP_KT(op_lexicographically_less_than<KT>)}},
    {"rotate_point", {op_rotate_point<KD>, VP_KU(op_rotate_point<KU>), VP_KF(op_rotate_point<KF>), VP_KT(op_rotate_point<KT>)}},
    {"grid_traits", {op_grid_traits<KD>, VP_KU(op_grid_traits<KU>), VP_KF(op_grid_traits<KF>), VP_KT(op_grid_traits<KT>)}},
    {"fast_voxel_grid_traversal", {op_fast_voxel_grid_traversal<KD>, VP_KU(op_fast_voxel_grid_traversal<KU>), VP_KF(op_fast_voxel_grid_traversal<KF>), VP_KT(op_fast_voxel_grid_traversal<KT>)}},
};
static const char* const kname[4] = {"double", "quantity", "accessor type", "tuple type"};
static bool same(double a, double b) { return a == b || (a != a && b != b) || std::fabs(a - b) <= 1e-9 * (1 + std::max(std::fabs(a), std::fabs(b))); }
static std::string text(const Out& o) { std::ostringstream s; s << std::setprecision(17); for (std::size_t i = 0; i < o.v.size(); ++i) s << " " << o.what[i] << "=" << o.v[i]; for (std::size_t i = 0; i < o.k.size(); ++i) s << " " << o.kw[i] << ":" << o.k[i]; return s.str(); }
static bool agree(const Out& a, const Out& b) { if (a.k != b.k || a.v.size() != b.v.size()) return false; for (std::size_t i = 0; i < a.v.size(); ++i) if (!same(a.v[i], b.v[i])) return false; return true; }
static gx::Poly unfold(const gx::Poly& p) { gx::Poly r; for (auto v : p) { std::size_t n = r.size(); if (n > 1 && gx::cross(r[n - 1] - r[n - 2], v - r[n - 1]) == 0 && gx::dot(r[n - 1] - r[n - 2], v - r[n - 1]) < 0) continue; r.push_back(v); } return r; }
static In draw(Case& c) {
    In i; gx::I m = c.pick<gx::I>({3, 5, 8, 12}); i.sc = c.pick<double>({1.0, 0.5, 0.1, 0.25, 4.0});
    for (int k = 0; k < 6; ++k) i.w.push_back(gx::pt(c, m)); auto fix = [&](int a, int b) { if (i.w[a] == i.w[b]) i.w[b] = i.w[b] + gx::V(i.w[b].x < m ? 1 : -1, 0); }; fix(0, 1); fix(1, 2); fix(2, 3); fix(2, 1); fix(0, 3); if (i.w[0] == i.w[1] || i.w[1] == i.w[2] || i.w[2] == i.w[3] || i.w[0] == i.w[3]) c.discard();
    for (int k = 4; k < 6; ++k) if (i.w[k] == gx::V(0, 0)) i.w[k] = gx::V(1, 2);
    i.poly = gx::rotate_start(c, gx::gen_simple(c, m, 8)); i.poly2 = gx::rotate_start(c, gx::gen_convex(c, m, 7)); i.poly3 = gx::rotate_start(c, gx::gen_convex(c, m, 7)); i.line = gx::gen_chain(c, m, 7); i.line2 = unfold(gx::gen_any_chain(c, m, 6));
    if (c.chance(1, 4)) i.poly = gx::rotate_start(c, i.poly2); if (c.chance(1, 4)) i.line2 = gx::Poly(i.line.rbegin(), i.line.rend()); if (c.chance(1, 3)) i.w[0] = gx::probe(c, i.poly, m);  if (i.w[0] == i.w[1] || i.w[0] == i.w[3]) c.discard();
    i.r = c.range(1, 12) * 0.25 * i.sc; i.r2 = c.range(1, 12) * 0.25 * i.sc; static const int py[6][3] = {{1, 0, 1}, {3, 4, 5}, {4, 3, 5}, {5, 12, 13}, {0, 1, 1}, {-3, 4, 5}}; auto& q = py[c.draw(6)]; i.cs = q[0] / (double)q[2]; i.sn = q[1] / (double)q[2]; i.hx = c.range(1, 16) * 0.25 * i.sc; i.hy = c.range(1, 16) * 0.25 * i.sc; i.s = c.range(1, 15) / 16.0; i.flag = c.chance(1, 2);
    VP_NOTE(c, "scale " << i.sc << " points " << i.w[0] << i.w[1] << i.w[2] << i.w[3] << " directions " << i.w[4] << i.w[5] << " polygon " << i.poly << " convex polygons " << i.poly2 << i.poly3 << " polylines " << i.line << i.line2 << " radii " << i.r << "," << i.r2 << " axis (" << i.cs << "," << i.sn << ") half widths " << i.hx << "," << i.hy << " parameter " << i.s);
    return i;
}
template <std::size_t N> void run(Case& c, const Op (&ops)[N]) {
    In i = draw(c); c.nontrivial();
    for (const Op& p : ops) { Out ref; p.f[0](i, ref);
        for (int k = 1; k < 4; ++k) if (p.f[k]) { Out o; p.f[k](i, o); VP_CHECK(c, agree(ref, o), p.name, "with the " << kname[k] << text(o) << " but with double" << text(ref)); } }
}
VP_ASPECT(distances, 40000, 600000, "lattice points, segments, polygons, polylines and boxes handed to every distance and closest point routine in each representation; every case counts") { run(c, ops_distances); }
VP_ASPECT(intersections, 40000, 600000, "lattice configurations handed to every static intersection routine in each representation; every case counts") { run(c, ops_static_intersections); }
VP_ASPECT(motion, 40000, 600000, "moving circles and boxes in each representation (length, velocity and time as dimensioned quantities); every case counts") { run(c, ops_motion); }
VP_ASPECT(sequences, 30000, 400000, "containment, measures, simplification and path routines in each representation; every case counts") { run(c, ops_containment_and_sequences); }
VP_ASPECT(vectors_and_grids, 40000, 600000, "vector algebra, expressions mixing units, angles, grid indexing and traversal in each representation; every case counts") { run(c, ops_vectors_and_grids); }
// ---- what holds the points
typedef KD::p P2;
template <class S> void traits_model(Case& c, S& s, const std::vector<P2>& m, const char* what) {
    typedef point_sequence_traits<S> A; const S& k = s; auto eq = [](const P2& a, const P2& b) { return a[0] == b[0] && a[1] == b[1]; };
    VP_CHECK(c, A::size(k) == m.size() && A::empty(k) == m.empty(), "sequence-size", what);
    std::vector<P2> f(A::begin(k), A::end(k)), g(A::rbegin(k), A::rend(k)), f2(A::begin(s), A::end(s)), g2(A::rbegin(s), A::rend(s)); std::reverse(g.begin(), g.end()); std::reverse(g2.begin(), g2.end());
    auto all = [&](const std::vector<P2>& x) { return x.size() == m.size() && std::equal(x.begin(), x.end(), m.begin(), eq); };
    VP_CHECK(c, all(f) && all(f2), "sequence-iteration", what); VP_CHECK(c, all(g) && all(g2), "sequence-reverse-iteration", what);
    for (std::size_t i = 0; i < m.size(); ++i) VP_CHECK(c, eq(A::get_point(k, i), m[i]) && &A::get_point(s, i) == &A::get_point(k, i), "sequence-get_point", what << " index " << i);
    if (!m.empty()) VP_CHECK(c, eq(A::front(k), m.front()) && eq(A::back(k), m.back()) && &A::front(s) == &A::get_point(k, 0) && &A::back(s) == &A::get_point(k, m.size() - 1), "sequence-front-back", what);
}
template <class S> Out closed(const S& s, const P2& q, const std::vector<double>& t) { Out o; o.e("in", point_in_polygon(q, s)); o.e("where", (int)point_polygon_containment_or_on_border(q, s, KD::C())); o.n("area", get_area(s)); o.n("signed", get_signed_area(s)); o.pt("centroid", get_centroid(s)); o.n("perimeter", polygon_length(s)); o.n("d2", point_polygon_distance_sqrd(q, s)); o.pt("closest", point_polygon_closest_point(q, s)); auto b = get_bounds(s, KD::C()); o.n("x", std::get<0>(b)); o.n("x", std::get<1>(b)); o.n("x", std::get<2>(b)); o.n("x", std::get<3>(b)); auto bb = make_aabb<P2>(s); o.pt("lo", bb.get_lower_bound()); o.pt("hi", bb.get_upper_bound()); o.e("simple", is_polygon_simple(s, KD::C())); return o; }
template <class S> Out open(const S& s, const P2& q, const std::vector<double>& t) { Out o; o.n("length", polyline_length(s)); o.n("d2", point_polyline_distance_sqrd(q, s)); o.pt("closest", point_polyline_closest_point(q, s)); o.pt("mid", polyline_mid_point(s)); o.n("curvature", polyline_total_curvature(s)); return o; }
VP_ASPECT(containers, 80000, 1200000, "the same vertices in polygon, polyline, std::vector, std::deque and std::array: traits against the plain list, algorithms against the polygon or polyline; every case counts") {
    gx::I m = c.pick<gx::I>({3, 5, 8, 12}); bool cl = c.chance(1, 2); gx::Poly g = cl ? gx::rotate_start(c, gx::gen_simple(c, m, 8)) : unfold(gx::gen_any_chain(c, m, 7)); gx::V p = gx::probe(c, g, m); double sc = c.pick<double>({1.0, 0.5, 0.1}); c.nontrivial(); VP_NOTE(c, (cl ? "polygon " : "polyline ") << g << " probe " << p << " scale " << sc);
    std::vector<P2> v; for (auto x : g) v.push_back(P2(x.x * sc, x.y * sc)); P2 q(p.x * sc, p.y * sc); std::deque<P2> d(v.begin(), v.end()); KX<KD>::pg a; KX<KD>::pl l; for (auto& x : v) { a.push_back(x); l.push_back(x); } std::vector<double> t;
    traits_model(c, v, std::vector<P2>(v), "std::vector"); traits_model(c, d, v, "std::deque"); traits_model(c, a, v, "polygon"); traits_model(c, l, v, "polyline");
    { std::deque<P2> d2 = construct<std::deque<P2>>(v); std::vector<P2> v2 = construct<std::vector<P2>>(d); KX<KD>::pg a2(d.begin(), d.end()); KX<KD>::pl l2(d.begin(), d.end()); traits_model(c, d2, v, "constructed std::deque"); traits_model(c, v2, v, "constructed std::vector"); traits_model(c, a2, v, "constructed polygon"); traits_model(c, l2, v, "constructed polyline");
      point_sequence_traits<std::deque<P2>>::pop_back(d2); point_sequence_traits<KX<KD>::pl>::pop_back(l2); point_sequence_traits<KX<KD>::pg>::pop_back(a2); std::vector<P2> w(v.begin(), v.end() - 1); traits_model(c, d2, w, "popped std::deque"); traits_model(c, l2, w, "popped polyline"); traits_model(c, a2, w, "popped polygon"); }
    Out r = cl ? closed(a, q, t) : open(l, q, t), rv = cl ? closed(v, q, t) : open(v, q, t), rd = cl ? closed(d, q, t) : open(d, q, t); VP_CHECK(c, agree(r, rv), "algorithms-vector", "std::vector gives" << text(rv) << " instead of" << text(r)); VP_CHECK(c, agree(r, rd), "algorithms-deque", "std::deque gives" << text(rd) << " instead of" << text(r));
    if (g.size() == 4) { std::array<P2, 4> y; std::copy(v.begin(), v.end(), y.begin()); traits_model(c, y, v, "std::array"); Out ry = cl ? closed(y, q, t) : open(y, q, t); c.label("std::array"); VP_CHECK(c, agree(r, ry), "algorithms-array", "std::array gives" << text(ry) << " instead of" << text(r)); }
}
template <std::size_t N> void array_model(Case& c, const std::vector<P2>& m) { std::array<P2, N> y; std::copy(m.begin(), m.begin() + N, y.begin()); std::vector<P2> w(m.begin(), m.begin() + N); VP_NOTE(c, "first " << N << " in std::array"); traits_model(c, y, w, "std::array"); if (N > 2) { KX<KD>::pl l(w.begin(), w.end()); VP_CHECK(c, same(polyline_length(y), polyline_length(l)) && same(get_area(y), get_area(KX<KD>::pg(w.begin(), w.end()))), "array-measures", "length " << polyline_length(y) << " and area " << get_area(y)); } }
VP_ASPECT(long_containers, 40000, 600000, "none to several hundred points in every kind of container, appended to and shortened through the traits; non-trivial: more than twelve points") {
    std::size_t n = (std::size_t)(c.chance(1, 2) ? c.range(0, 14) : c.chance(3, 4) ? c.range(15, 130) : c.range(131, 600)); std::vector<P2> v; for (std::size_t i = 0; i < n; ++i) v.push_back(P2((double)(c.chance(1, 2) ? (gx::I)i : c.around(50)), (double)c.around(50))); VP_NOTE(c, n << " points, the first " << (n ? v[0][0] : 0) << "," << (n ? v[0][1] : 0)); if (n > 12) c.nontrivial();
    std::deque<P2> d(v.begin(), v.end()); KX<KD>::pg a(v.begin(), v.end()); KX<KD>::pl l; for (auto& x : v) l.push_back(x); std::vector<P2> w(v); traits_model(c, w, v, "std::vector"); traits_model(c, d, v, "std::deque"); traits_model(c, a, v, "polygon"); traits_model(c, l, v, "polyline");
    std::deque<P2> d2 = construct<std::deque<P2>>(v); std::vector<P2> w2 = construct<std::vector<P2>>(d); traits_model(c, d2, v, "constructed std::deque"); traits_model(c, w2, v, "constructed std::vector");
    if (n >= 1) switch (std::min<std::size_t>(n, (std::size_t)c.range(1, 14))) { case 1: array_model<1>(c, v); break; case 2: array_model<2>(c, v); break; case 3: array_model<3>(c, v); break; case 4: array_model<4>(c, v); break; case 5: array_model<5>(c, v); break; case 6: array_model<6>(c, v); break; case 7: array_model<7>(c, v); break; case 8: array_model<8>(c, v); break; case 9: array_model<9>(c, v); break; case 10: case 11: array_model<10>(c, v); break; case 12: case 13: array_model<12>(c, v); break; default: if (n >= 80) array_model<80>(c, v); else array_model<14>(c, v); }
    if (n > 2) { double pl = polyline_length(l), ar = get_area(a); VP_CHECK(c, same(polyline_length(w), pl) && same(polyline_length(d), pl), "long-length", polyline_length(w) << " and " << polyline_length(d) << " instead of " << pl); VP_CHECK(c, same(get_area(w), ar) && same(get_area(d), ar), "long-area", get_area(w) << " and " << get_area(d) << " instead of " << ar); double sum = 0, twice = 0; for (std::size_t i = 0; i < n; ++i) { const P2 &p = v[i], &q = v[(i + 1) % n]; if (i + 1 < n) sum += std::hypot(q[0] - p[0], q[1] - p[1]); twice += p[0] * q[1] - p[1] * q[0]; } VP_CHECK(c, same(pl, sum) && same(ar, std::fabs(twice) / 2), "long-measures", "length " << pl << " area " << ar << " expected " << sum << " and " << std::fabs(twice) / 2); }
    int steps = (int)c.range(0, 8); for (int k = 0; k < steps; ++k) { if (c.chance(1, 2)) { P2 p((double)c.around(50), (double)c.around(50)); v.push_back(p); if (c.chance(1, 2)) point_sequence_traits<std::vector<P2>>::push_back(w, p); else point_sequence_traits<std::vector<P2>>::emplace_back(w, p); d.push_back(p); a.push_back(p); l.push_back(p); } else if (!v.empty()) { v.pop_back(); point_sequence_traits<std::vector<P2>>::pop_back(w); point_sequence_traits<std::deque<P2>>::pop_back(d); point_sequence_traits<KX<KD>::pg>::pop_back(a); point_sequence_traits<KX<KD>::pl>::pop_back(l); } }
    traits_model(c, w, v, "edited std::vector"); traits_model(c, d, v, "edited std::deque"); traits_model(c, a, v, "edited polygon"); traits_model(c, l, v, "edited polyline");
}
