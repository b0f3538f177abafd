// P07: circle/sphere/capsule intersection tests agree with exact lattice geometry.
#include "gl.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/point_aabb_distance.hpp>
#include <geometrix/algorithm/distance/point_obb_distance.hpp>
#include <geometrix/algorithm/intersection/segment_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/circle_circle_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_capsule_intersection.hpp>
using namespace geometrix; using namespace gl; using vp::Case;
typedef sphere2_double_2d C2; typedef sphere3_double_3d C3; typedef std::array<I, 3> A3;
template <int K> struct Ty; template <> struct Ty<2> { typedef P2 P; typedef V2 Ve; typedef C2 S; typedef segment<P2> G; static P p(const A3& a, double s) { return P2(a[0] * s, a[1] * s); } static Ve v(const A3& a, double s) { return V2(a[0] * s, a[1] * s); } };
template <> struct Ty<3> { typedef P3 P; typedef V3 Ve; typedef C3 S; typedef segment<P3> G; static P p(const A3& a, double s) { return P3(a[0] * s, a[1] * s, a[2] * s); } static Ve v(const A3& a, double s) { return V3(a[0] * s, a[1] * s, a[2] * s); } };
template <int K> static I dotk(const A3& a, const A3& b) { I r = 0; for (int k = 0; k < K; ++k) r += a[k] * b[k]; return r; }
static A3 sub3(const A3& a, const A3& b) { return {{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; }
static std::ostream& operator<<(std::ostream& os, const A3& a) { return os << "(" << a[0] << "," << a[1] << "," << a[2] << ")"; }
template <int K, typename PT> static bool at(const PT& q, const A3& o, const A3& d, LD t, double sc, double tl) { for (int k = 0; k < K; ++k) if (!(std::fabs(q[k] - (double)((o[k] + t * d[k]) * sc)) <= tl)) return false; return true; }
//! root of a quadratic moves by about err/(2 sqrt(disc)) when the discriminant moves by err
static double root_tol(LD disc, double err) { double s = std::sqrt(std::max<double>(0, (double)disc)); double r = std::sqrt(err); return 1e-10 + (s > r ? err / s : 2 * r); }

//! solid-circle first contact (the library restricts these to 2d)
static void first2(Case& c, const P2& pa, const P2& pb, const C2& s, const A3& a, const A3& d, double sc, double len, LD first, bool hits, bool hitr, double tl, double tt) {
    const int K = 2; typedef Ty<2> T; typedef P2 PT;
    { double t = -9; PT q; for (int k = 0; k < K; ++k) q[k] = 1e9; bool h; switch (c.draw(3)) { case 0: h = segment_sphere_intersection(pa, pb, s, t, q, cmp()); break; case 1: h = segment_sphere_intersection(T::G(pa, pb), s, t, q, cmp()); break; default: h = segment_sphere_intersection(pa, T::v(d, sc), len * sc, s, t, q, cmp()); }
      VP_CHECK(c, h == hits, "segment_sphere_intersection-first", "hit " << h << " expected " << hits); if (hits) VP_CHECK(c, std::fabs(t - (double)first) <= tt && at<K>(q, a, d, first, sc, tl), "segment_sphere_intersection-first-point", "t=" << t << " expected " << (double)first); }
    { double t = -9; PT q; for (int k = 0; k < K; ++k) q[k] = 1e9; T::Ve u = T::v(d, 1 / len); bool h = ray_sphere_intersection(pa, u, s, t, q, cmp());
      VP_CHECK(c, h == hitr, "ray_sphere_intersection", "hit " << h << " expected " << hitr); if (hitr) VP_CHECK(c, std::fabs(t - (double)(first * len * sc)) <= tl && at<K>(q, a, d, first, sc, tl), "ray_sphere_intersection-point", "t=" << t << " expected " << (double)(first * len * sc)); }
}
static void first2(Case&, const P3&, const P3&, const C3&, const A3&, const A3&, double, double, LD, bool, bool, double, double) {}

template <int K> static void segray(Case& c) {
    typedef Ty<K> T; typedef typename T::P PT; I m = c.pick<I>({3, 2, 5, 8, 20}); double sc = c.pick<double>({1.0, 0.5, 4.0, 0.1}); A3 a, b, o;
    for (int k = 0; k < 3; ++k) { a[k] = c.around(m); b[k] = c.around(m); o[k] = c.around(m); } I r = c.range(1, m + 1);
    switch (c.draw(4)) { case 1: { I s = c.chance(1, 2) ? 1 : -1; a[0] = o[0] + s * r; a[1] = o[1]; a[2] = o[2]; b[0] = c.chance(1, 2) ? a[0] : b[0]; break; } // starts on the circle
        case 2: { I s = c.chance(1, 2) ? r : -r; a[1] = b[1] = o[1] + s; a[2] = b[2] = o[2]; break; } // tangent line
        case 3: { for (int k = 0; k < 3; ++k) b[k] = o[k]; b[1] += r; break; } default:; }
    bool z = true; for (int k = 0; k < K; ++k) z = z && a[k] == b[k]; if (z) b[0] += 1;
    if (K == 2) a[2] = b[2] = o[2] = 0;
    VP_NOTE(c, K << "d segment " << a << b << " centre " << o << " radius " << r << " scale " << sc);
    A3 d = sub3(b, a), f = sub3(a, o); I A = dotk<K>(d, d), B = 2 * dotk<K>(f, d), CC = dotk<K>(f, f) - r * r, D = B * B - 4 * A * CC; typename T::S s(T::p(o, sc), r * sc); PT pa = T::p(a, sc), pb = T::p(b, sc);
    bool i0 = D >= 0 && B <= 0 && B * B >= D && (-B - 2 * A <= 0 || (-B - 2 * A) * (-B - 2 * A) <= D), i1 = D >= 0 && (B <= 0 || B * B <= D) && 2 * A + B >= 0 && D <= (2 * A + B) * (2 * A + B);
    LD rt = D >= 0 ? std::sqrt((LD)D) : 0, t0 = (-B - rt) / (2 * A), t1 = (-B + rt) / (2 * A); double len = std::sqrt((double)A);
    bool ex = sc != 0.1; double err = 1e-12 * (double)(m * m + 1), tl = (1e-9 + root_tol((LD)D / (4 * A), err)) * (m + 1) * sc, tt = tl / (len * sc);
    c.label_if(D == 0, "tangent"); c.label_if(CC < 0, "starts inside"); c.label_if(CC == 0, "starts on the sphere"); c.label_if(i0 && i1, "through");
    bool touch0 = CC == 0 || dotk<K>(sub3(b, o), sub3(b, o)) == r * r; // a root at 0 or 1
    { double t[2] = {-9, -9}; PT q[2]; auto res = segment_sphere_intersection(pa, pb, s, &t[0], &q[0], cmp());
      if (ex || (D != 0 && !touch0)) { VP_CHECK(c, res.is_t0_intersecting() == i0 && res.is_t1_intersecting() == i1, "segment_sphere_intersection-roots", "flags " << res.is_t0_intersecting() << res.is_t1_intersecting() << " expected " << i0 << i1); VP_CHECK(c, bool(res) == (i0 || i1) && (std::uint32_t)res == (std::uint32_t)(i0 + i1), "segment_sphere_intersection-count", "count " << (std::uint32_t)res); }
      if (res.is_t0_intersecting()) VP_CHECK(c, std::fabs(t[0] - (double)t0) <= tt && at<K>(q[0], a, d, t0, sc, tl), "segment_sphere_intersection-t0", "t0=" << t[0] << " expected " << (double)t0);
      if (res.is_t1_intersecting()) VP_CHECK(c, std::fabs(t[1] - (double)t1) <= tt && at<K>(q[1], a, d, t1, sc, tl), "segment_sphere_intersection-t1", "t1=" << t[1] << " expected " << (double)t1); }
    // solid sphere: first contact of the segment / the ray
    LD first = CC <= 0 ? 0 : t0; bool line = D >= 0 && (CC <= 0 || B <= 0); bool hits = line && (CC <= 0 || i0), hitr = line && (CC <= 0 || B < 0 || D == 0);
    if (CC > 0 && B == 0) hitr = hits = false; if (CC > 0 && B > 0) hitr = hits = false;
    if (hits) c.nontrivial(); c.label_if(hits != hitr, "ray hits beyond the segment");
    // starting on the sphere and leaving it: contact at the start
    first2(c, pa, pb, s, a, d, sc, len, first, hits, hitr, tl, tt);
}
VP_ASPECT(segment_ray_sphere, 3200000, 30000000, "lattice segments and rays against circles and spheres incl. tangent, starting on or inside; non-trivial: the segment meets the solid sphere") { if (c.chance(1, 2)) segray<2>(c); else segray<3>(c); }

template <typename R, typename S, typename E> static void cc(Case& c, const char* tag, const R& r, S want, double ax, double ay, double r1, double bx, double by, double r2, double tl, E one, E two) {
    bool tang = want == one; auto on = [&](const P2& p, double lim) { return std::fabs(std::hypot(p[0] - ax, p[1] - ay) - r1) <= lim && std::fabs(std::hypot(p[0] - bx, p[1] - by) - r2) <= lim; };
    VP_CHECK(c, r.State == want || (tang && r.State == two), tag, "state " << (int)r.State << " expected " << (int)want); // a tangency may be reported as two coinciding points
    bool has0 = r.State == one || r.State == two, has1 = r.State == two;
    VP_CHECK(c, bool(r.IntersectionPoint0) == has0 && bool(r.IntersectionPoint1) == has1, std::string(tag) + "-presence", "points set " << bool(r.IntersectionPoint0) << bool(r.IntersectionPoint1));
    if (has0) VP_CHECK(c, on(*r.IntersectionPoint0, tl), std::string(tag) + "-point", "point " << sh(*r.IntersectionPoint0) << " is not on both circles");
    if (has1) { VP_CHECK(c, on(*r.IntersectionPoint1, tl), std::string(tag) + "-point", "point " << sh(*r.IntersectionPoint1) << " is not on both circles"); double g = dist(*r.IntersectionPoint0, *r.IntersectionPoint1); if (tang) VP_CHECK(c, g <= 1e-4, std::string(tag) + "-tangent", "tangent circles meet in points " << g << " apart"); else VP_CHECK(c, g > 1e-6, std::string(tag) + "-distinct", "two reported points coincide"); }
}
VP_ASPECT(circle_circle, 2400000, 20000000, "pairs of circles with lattice centres and integer radii incl. concentric, equal, tangent inside and outside; non-trivial: the circles share a point") {
    I m = c.pick<I>({3, 5, 8, 20}); double sc = c.pick<double>({1.0, 0.5, 0.1, 1.0 / 3.0, 7.0}); V a = gx::pt(c, m), b = gx::pt(c, m); I r1 = c.range(1, m + 2), r2 = c.range(1, m + 2);
    switch (c.draw(5)) { case 1: b = a; break; case 2: { V e = c.pick<V>({V(1, 0), V(0, -1)}); b = a + (r1 + r2) * e; break; } case 3: { V e = c.pick<V>({V(-1, 0), V(0, 1)}); b = a + (r1 - r2) * e; break; } case 4: { V e = c.pick<V>({V(3, 4), V(-4, 3), V(5, -12), V(8, 15)}); I h = (I)std::sqrt((double)gx::dot(e, e)); b = a + e; I k = c.range(1, 2); b = a + k * e; r1 = c.range(1, 2 * h); r2 = c.chance(1, 2) ? k * h - r1 : k * h + r1; if (r2 < 1) r2 = r1 + k * h; break; } default:; }
    if (c.chance(1, 2)) { std::swap(a, b); std::swap(r1, r2); }
    VP_NOTE(c, "circles " << a << " r " << r1 << ", " << b << " r " << r2 << " scale " << sc);
    I d2 = gx::dot(b - a, b - a), su = (r1 + r2) * (r1 + r2), di = (r1 - r2) * (r1 - r2); int w = d2 > su ? 0 : d2 < di ? 1 : d2 == 0 ? 4 : (d2 == su || d2 == di) ? 2 : 3; if (w >= 2) c.nontrivial();
    c.label_if(w == 0, "apart"); c.label_if(w == 1, "one inside"); c.label_if(w == 2, "tangent"); c.label_if(w == 3, "two points"); c.label_if(w == 4, "same");
    static const circle_intersection_state cs[] = {circle_intersection_state::non_intersecting, circle_intersection_state::circumscribed, circle_intersection_state::one_intersection, circle_intersection_state::two_intersections, circle_intersection_state::coincident};
    static const sphere_intersection_state ss[] = {sphere_intersection_state::non_intersecting, sphere_intersection_state::circumscribed, sphere_intersection_state::one_intersection, sphere_intersection_state::two_intersections, sphere_intersection_state::coincident};
    C2 x(P(a, sc), r1 * sc), y(P(b, sc), r2 * sc); double tl = 1e-6 * (m + 2) * std::max(1.0, sc);
    cc(c, "circle_circle_intersection", circle_circle_intersection(x, y, cmp()), cs[w], a.x * sc, a.y * sc, r1 * sc, b.x * sc, b.y * sc, r2 * sc, tl, cs[2], cs[3]);
    cc(c, "sphere_sphere_intersection", sphere_sphere_intersection(x, y, cmp()), ss[w], a.x * sc, a.y * sc, r1 * sc, b.x * sc, b.y * sc, r2 * sc, tl, ss[2], ss[3]);
}

VP_ASPECT(sphere_shapes, 2400000, 20000000, "circle/sphere against solid boxes (2d, 3d, oriented) and polylines; non-trivial: centre outside and a hit") {
    I m = c.pick<I>({3, 5, 8, 20}); double sc = c.pick<double>({1.0, 0.5, 4.0, 0.015625, 256.0}); I o[3], l[3], h[3]; I r = c.range(1, m + 1); for (int k = 0; k < 3; ++k) { o[k] = c.around(m * 2); I x = c.around(m), y = c.around(m); l[k] = std::min(x, y); h[k] = std::max(x, y); }
    VP_NOTE(c, "centre (" << o[0] << "," << o[1] << "," << o[2] << ") r " << r << " box [" << l[0] << "," << h[0] << "]x[" << l[1] << "," << h[1] << "]x[" << l[2] << "," << h[2] << "] scale " << sc);
    I d2 = 0, d3 = 0, cp[3]; for (int k = 0; k < 3; ++k) { cp[k] = std::min(h[k], std::max(l[k], o[k])); I e = o[k] - cp[k]; d3 += e * e; if (k < 2) d2 += e * e; } if (d2 > 0 && d2 <= r * r) c.nontrivial(); c.label_if(d2 == r * r, "touching box");
    C2 s2(P2(o[0] * sc, o[1] * sc), r * sc); C3 s3(P3(o[0] * sc, o[1] * sc, o[2] * sc), r * sc); axis_aligned_bounding_box<P2> b2(P2(l[0] * sc, l[1] * sc), P2(h[0] * sc, h[1] * sc)); axis_aligned_bounding_box<P3> b3(P3(l[0] * sc, l[1] * sc, l[2] * sc), P3(h[0] * sc, h[1] * sc, h[2] * sc));
    P2 q2(1e9, 1e9); P3 q3(1e9, 1e9, 1e9); bool w2 = d2 <= r * r, w3 = d3 <= r * r;
    VP_CHECK(c, sphere_aabb_intersection(s2, b2) == w2 && sphere_aabb_intersection(s2, b2, q2) == w2, "sphere_aabb_intersection-2d", "expected " << w2); VP_CHECK(c, q2[0] == cp[0] * sc && q2[1] == cp[1] * sc, "sphere_aabb_intersection-point", "closest point " << sh(q2));
    VP_CHECK(c, sphere_aabb_intersection(s3, b3) == w3 && sphere_aabb_intersection(s3, b3, q3) == w3, "sphere_aabb_intersection-3d", "expected " << w3); VP_CHECK(c, q3[0] == cp[0] * sc && q3[1] == cp[1] * sc && q3[2] == cp[2] * sc, "sphere_aabb_intersection-point", "closest point in 3d");
    { struct R { int a, b, h; }; R p = c.pick<R>({{1, 0, 1}, {3, 4, 5}, {0, 1, 1}, {-4, 3, 5}, {5, -12, 13}}); V ctr = gx::pt(c, m); I hu = c.range(1, std::max<I>(1, m / 2)), hv = c.range(1, std::max<I>(1, m / 2)); V U(p.a, p.b), W(-p.b, p.a); Poly cr{ctr - hu * U - hv * W, ctr + hu * U - hv * W, ctr + hu * U + hv * W, ctr - hu * U + hv * W}; V oo(o[0], o[1]); I rr = c.range(1, 3 * m);
      VP_NOTE(c, "oriented box " << cr << " radius " << rr); Q w(0); if (gx::locate(cr, oo) < 0) { w = Q(1000000000LL); for (int i = 0; i < 4; ++i) w = gx::qmin(w, gx::d2_pt_seg(oo, cr[i], cr[(i + 1) % 4])); }
      oriented_bounding_box<P2, V2> ob(P(ctr, sc), V2((double)p.a / p.h, (double)p.b / p.h), V2(-(double)p.b / p.h, (double)p.a / p.h), hu * p.h * sc, hv * p.h * sc);
      if (w != Q(rr * rr)) { bool hit = w < Q(rr * rr); VP_CHECK(c, sphere_obb_intersection(C2(P(oo, sc), rr * sc), ob) == hit, "sphere_obb_intersection", "expected " << hit << " squared distance " << w); } }
    { Poly g = gx::gen_any_chain(c, m, 7); V oo(o[0], o[1]); VP_NOTE(c, "polyline " << g); std::vector<std::pair<std::size_t, int>> want, got; 
      for (std::size_t i = 0; i + 1 < g.size(); ++i) { V d = g[i + 1] - g[i], f = g[i] - oo; I A = gx::dot(d, d), B = 2 * gx::dot(f, d), CC = gx::dot(f, f) - r * r, D = B * B - 4 * A * CC; bool i0 = D >= 0 && B <= 0 && B * B >= D && (-B - 2 * A <= 0 || (-B - 2 * A) * (-B - 2 * A) <= D), i1 = D >= 0 && (B <= 0 || B * B <= D) && 2 * A + B >= 0 && D <= (2 * A + B) * (2 * A + B); if (i0 || i1) want.push_back({i, i0 + 2 * i1}); }
      std::size_t stop_at = c.chance(1, 3) ? (std::size_t)c.draw(3) : 99; bool ok = true; auto vis = [&](const segment_sphere_intersection_result& res, std::size_t i, std::size_t j, double t0, const P2& q0, double t1, const P2& q1) { got.push_back({i, res.is_t0_intersecting() + 2 * res.is_t1_intersecting()}); if (j != i + 1) ok = false; P2 p = P(g[i], sc), e = P(g[j], sc); if (std::hypot(p[0] + t0 * (e[0] - p[0]) - q0[0], p[1] + t0 * (e[1] - p[1]) - q0[1]) > 1e-8 || std::hypot(p[0] + t1 * (e[0] - p[0]) - q1[0], p[1] + t1 * (e[1] - p[1]) - q1[1]) > 1e-8) ok = false; return got.size() > stop_at; };
      bool h = sphere_polyline_intersect(s2, Pl(g, sc), vis, cmp()); auto full = want; if (want.size() > stop_at + 1) want.resize(stop_at + 1);
      VP_CHECK(c, h == !full.empty() && got == want && ok, "sphere_polyline_intersect", "visited " << got.size() << " edges, expected " << want.size() << " (result " << h << ")"); }
}

VP_ASPECT(segment_capsule, 2400000, 20000000, "segments starting outside a capsule incl. parallel and axis-collinear ones; verdicts within rounding of tangency are not asserted; non-trivial: a hit") {
    I m = c.pick<I>({3, 5, 8, 20}); V p = gx::pt(c, m), q = gx::pt(c, m); if (p == q) q = q + V(1, 0); V a = gx::pt(c, m + 4), b = gx::pt(c, m + 4); V d = q - p; if (c.chance(1, 4)) b = a + c.around(3) * d; if (c.chance(1, 6)) { a = p - c.range(1, 3) * d; b = a + c.around(4) * d; } if (a == b) b = b + V(0, 1); I r4 = c.range(1, 4 * m); double r = r4 * 0.25, sc = c.pick<double>({1.0, 0.5, 4.0, 0.015625, 256.0});
    VP_NOTE(c, "capsule " << p << q << " radius " << r << " segment " << a << b << " scale " << sc);
    LD da = std::sqrt((double)gx::d2_pt_seg(a, p, q).ld()), dm = std::sqrt((double)gx::d2_seg_seg(a, b, p, q).ld()); if (da <= r + 1e-6) c.discard(); bool hit = dm < r; if (std::fabs((double)dm - r) < 1e-6) c.discard(); if (hit) c.nontrivial(); c.label_if(gx::cross(b - a, d) == 0, "parallel"); c.label_if(hit, "hit");
    double t = -9; P2 x(1e9, 1e9); bool h = segment_capsule_intersection(P(a, sc), P(b, sc), P(p, sc), P(q, sc), r * sc, t, x, cmp()); VP_CHECK(c, h == hit, "segment_capsule_intersection", "hit " << h << " expected " << hit << " (distance " << (double)dm << ")");
    if (hit) { // first parameter at distance r: the distance to a convex set along a line is convex, so bisect between the start and the minimiser
        auto D = [&](LD s) { P2 w((double)(a.x + s * (b.x - a.x)), (double)(a.y + s * (b.y - a.y))); return pd(w, p, q); }; LD lo = 0, hi = 1; for (int i = 0; i < 200; ++i) { LD u = lo + (hi - lo) / 3, v = hi - (hi - lo) / 3; if (D(u) <= r) { hi = u; break; } if (D(v) <= r) { hi = v; break; } if (D(u) < D(v)) hi = v; else lo = u; }
        LD l = 0, g = hi; for (int i = 0; i < 80; ++i) { LD k = (l + g) / 2; if (D(k) > r) l = k; else g = k; }
        double err = (r - (double)dm) < 1e-2 ? 1e-3 : 1e-7; VP_CHECK(c, t >= -1e-9 && t <= 1 + 1e-9 && std::fabs(t - (double)l) <= err, "segment_capsule_intersection-t", "t=" << t << " expected " << (double)l); VP_CHECK(c, std::hypot(x[0] - (a.x + (double)l * (b.x - a.x)) * sc, x[1] - (a.y + (double)l * (b.y - a.y)) * sc) <= err * 100 * sc, "segment_capsule_intersection-point", "point " << sh(x)); }
}
