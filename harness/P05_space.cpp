// P05: 3D segments, planes and 2D triangle intersection tests agree with exact lattice geometry.
#include "gl.hpp"
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/primitive/plane.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_triangle_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_plane_intersection.hpp>
#include <geometrix/algorithm/classify_simplex_to_plane.hpp>
#include <geometrix/algorithm/eberly_triangle_aabb_intersection.hpp>
using namespace geometrix; using namespace gl; using vp::Case;
struct W3 { I x, y, z; };
static W3 operator+(W3 a, W3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static W3 operator-(W3 a, W3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static W3 operator*(I k, W3 a) { return {k * a.x, k * a.y, k * a.z}; }
static I dot3(W3 a, W3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static W3 cr3(W3 a, W3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static bool zero(W3 a) { return !a.x && !a.y && !a.z; }
static bool eq(W3 a, W3 b) { return zero(a - b); }
static std::ostream& operator<<(std::ostream& os, W3 v) { return os << "(" << v.x << "," << v.y << "," << v.z << ")"; }
static W3 pt3(Case& c, I m) { I x = c.around(m), y = c.around(m), z = c.around(m); return {x, y, z}; }
static P3 T(W3 v, double s) { return P3(v.x * s, v.y * s, v.z * s); }
static bool at3(const P3& p, LD x, LD y, LD z, double tl) { return std::fabs(p[0] - (double)x) <= tl && std::fabs(p[1] - (double)y) <= tl && std::fabs(p[2] - (double)z) <= tl; }
struct S3 { const P3& p; }; static std::ostream& operator<<(std::ostream& os, S3 s) { return os << "(" << s.p[0] << "," << s.p[1] << "," << s.p[2] << ")"; }

VP_ASPECT(segment_segment_3d, 2400000, 30000000, "pairs of proper lattice segments in space: random, built to cross, touch, be parallel, collinear or merely coplanar; non-trivial: coplanar") {
    I m = c.pick<I>({2, 3, 5, 8}); double sc = c.pick<double>({1.0, 0.5, 4.0, 0.015625, 256.0, 0.1, 0.3}); W3 a = pt3(c, m), b = pt3(c, m), u, v; if (eq(a, b)) b = b + W3{1, 0, 0}; W3 d = b - a;
    switch (c.draw(6)) {
    case 0: u = pt3(c, m); v = pt3(c, m); break;
    case 1: { W3 e = pt3(c, 2); I i = c.around(2), j = c.around(2), k = c.around(2), l = c.around(2); u = a + i * d + j * e; v = a + k * d + l * e; break; } // coplanar
    case 2: u = pt3(c, m); v = u + c.around(2) * d; break;
    case 3: u = a + c.around(2) * d; v = a + c.around(2) * d; break;
    case 4: u = c.chance(1, 2) ? a : b; v = pt3(c, m); break;
    default: { a = 2 * a; b = a + 2 * d; W3 mid = a + d; W3 e = pt3(c, m); u = mid + c.around(2) * e; v = mid + c.around(2) * e; d = b - a; } // through the middle
    }
    if (eq(u, v)) v = v + W3{0, 0, 1};
    if (c.chance(1, 3)) { std::swap(a, u); std::swap(b, v); } d = b - a;
    VP_NOTE(c, "segments " << a << b << " and " << u << v << " scale " << sc);
    W3 f = v - u; W3 n = cr3(d, f); bool par = zero(n); bool copl = dot3(u - a, n) == 0; if (copl) c.nontrivial();
    int want = e_non_crossing; Q s, t, lo, hi; 
    if (!par && copl) { I nn = dot3(n, n); s = Q(dot3(cr3(u - a, f), n), nn); t = Q(dot3(cr3(u - a, d), n), nn); if (s >= Q(0) && s <= Q(1) && t >= Q(0) && t <= Q(1)) want = (s == Q(0) || s == Q(1) || t == Q(0) || t == Q(1)) ? e_endpoint : e_crossing; }
    else if (par && zero(cr3(d, u - a))) { Q p(dot3(u - a, d), dot3(d, d)), q(dot3(v - a, d), dot3(d, d)); lo = p < q ? p : q; hi = p < q ? q : p; if (lo < Q(0)) lo = Q(0); if (hi > Q(1)) hi = Q(1); if (lo < hi) want = e_overlapping; else if (lo == hi) want = e_endpoint; }
    c.label_if(want == e_crossing, "crossing"); c.label_if(want == e_endpoint, "touching"); c.label_if(want == e_overlapping, "overlapping"); c.label_if(par && want == 0, "parallel apart");
    double tl = 1e-10 * (m * 10 + 5) * sc; P3 x[2] = {P3(1e9, 1e9, 1e9), P3(-1e9, 0, 0)}; intersection_type r;
    if (c.chance(1, 2)) r = segment_segment_intersection(T(a, sc), T(b, sc), T(u, sc), T(v, sc), x, cmp()); else { segment<P3> s1(T(a, sc), T(b, sc)), s2(T(u, sc), T(v, sc)); r = segment_segment_intersection(s1, s2, x, cmp()); }
    VP_CHECK(c, r == want, "segment_segment_intersection-3d", "type " << r << " expected " << want);
    auto on = [&](Q k, const P3& p) { return at3(p, (a.x + k.ld() * d.x) * sc, (a.y + k.ld() * d.y) * sc, (a.z + k.ld() * d.z) * sc, tl); };
    if (r == e_crossing || (r == e_endpoint && !par)) VP_CHECK(c, on(s, x[0]), "segment_segment_intersection-3d-point", "point " << S3{x[0]} << " expected parameter " << s);
    if (r == e_endpoint && par) VP_CHECK(c, on(lo, x[0]), "segment_segment_intersection-3d-point", "point " << S3{x[0]} << " expected parameter " << lo);
    if (r == e_overlapping) VP_CHECK(c, (on(lo, x[0]) && on(hi, x[1])) || (on(hi, x[0]) && on(lo, x[1])), "segment_segment_intersection-3d-overlap", "overlap " << S3{x[0]} << S3{x[1]} << " expected parameters " << lo << ".." << hi);
}

VP_ASPECT(segment_triangle, 2400000, 30000000, "proper lattice segment against a proper lattice triangle of either winding; non-trivial: they meet") {
    I m = c.pick<I>({2, 3, 5, 8, 20}); double sc = c.pick<double>({1.0, 0.5, 4.0, 0.015625, 256.0}); Poly g; do { g.clear(); for (int i = 0; i < 3; ++i) g.push_back(gx::pt(c, m)); if (gx::area2(g) == 0) g = Poly{V(0, 0), V(m, 0), V(0, m)}; } while (gx::area2(g) == 0);
    V a = gx::probe(c, g, m), b = gx::probe(c, g, m); if (a == b) b = b + V(1, c.around(1));
    VP_NOTE(c, "triangle " << g << " segment " << a << b << " scale " << sc);
    // exact clip of the segment by the three half planes
    Q lo(0), hi(1); Poly t = gx::make_ccw(g); bool empty = false;
    for (int i = 0; i < 3; ++i) { I fa = gx::orient(t[i], t[(i + 1) % 3], a), fb = gx::orient(t[i], t[(i + 1) % 3], b); if (fa == fb) { if (fa < 0) empty = true; } else { Q z(fa, fa - fb); if (fb > fa) { if (z > lo) lo = z; } else if (z < hi) hi = z; } }
    if (hi < lo) empty = true; int want = empty ? 0 : lo == hi ? 1 : 2; if (want) c.nontrivial(); c.label_if(want == 1, "single contact point"); c.label_if(want == 2, "overlap");
    P2 x[2] = {P2(1e9, 1e9), P2(-1e9, 1e9)}; P2 A = P(a, sc), B = P(b, sc), t0 = P(t[0], sc), t1 = P(t[1], sc), t2 = P(t[2], sc); std::size_t n = segment_triangle_intersect(A, B, t0, t1, t2, x, cmp());
    VP_CHECK(c, (int)n == want, "segment_triangle_intersect-points", "count " << n << " expected " << want);
    double tl = 1e-9 * (m + 5) * sc; auto on = [&](Q k, const P2& p) { return std::hypot(p[0] - (double)((a.x + k.ld() * (b.x - a.x)) * sc), p[1] - (double)((a.y + k.ld() * (b.y - a.y)) * sc)) <= tl; };
    if (want == 1) VP_CHECK(c, on(lo, x[0]), "segment_triangle_intersect-point", "point " << sh(x[0]) << " expected parameter " << lo);
    if (want == 2) VP_CHECK(c, (on(lo, x[0]) && on(hi, x[1])) || (on(hi, x[0]) && on(lo, x[1])), "segment_triangle_intersect-interval", "points " << sh(x[0]) << sh(x[1]) << " expected parameters " << lo << ".." << hi);
    t0 = P(g[0], sc); t1 = P(g[1], sc); t2 = P(g[2], sc);
    bool h = c.chance(1, 2) ? segment_triangle_intersect(A, B, t0, t1, t2) : segment_triangle_intersect(S2(A, B), t0, t1, t2); VP_CHECK(c, h == !empty, "segment_triangle_intersect", "hit " << h << " expected " << !empty);
    // triangle against an axis-aligned box
    V p = gx::probe(c, g, m), q = gx::probe(c, g, m); V bl(std::min(p.x, q.x), std::min(p.y, q.y)), bh(std::max(p.x, q.x), std::max(p.y, q.y)); VP_NOTE(c, "box " << bl << bh);
    bool sep = false; Poly bx{bl, V(bh.x, bl.y), bh, V(bl.x, bh.y)}; Poly ax{V(1, 0), V(0, 1)}; for (int i = 0; i < 3; ++i) { V e = t[(i + 1) % 3] - t[i]; ax.push_back(V(e.y, -e.x)); }
    for (V n : ax) { I l1 = INT64_MAX, h1 = INT64_MIN, l2 = l1, h2 = h1; for (V w : t) { I k = gx::dot(n, w); l1 = std::min(l1, k); h1 = std::max(h1, k); } for (V w : bx) { I k = gx::dot(n, w); l2 = std::min(l2, k); h2 = std::max(h2, k); } if (h1 < l2 || h2 < l1) sep = true; }
    axis_aligned_bounding_box<P2> bb(P(bl, sc), P(bh, sc)); bool e = eberly_triangle_aabb_intersection_2d(t0, t1, t2, bb, cmp()); VP_CHECK(c, e == !sep, "eberly_triangle_aabb_intersection_2d", "hit " << e << " expected " << !sep);
}

VP_ASPECT(planes, 1800000, 20000000, "plane through three lattice points against lattice points, and lines (2d hyperplanes) against points and segments; non-trivial: points on both sides") {
    I m = c.pick<I>({2, 3, 5, 8}); double sc = c.pick<double>({1.0, 0.5, 0.1}); W3 p0 = pt3(c, m), p1 = pt3(c, m), p2 = pt3(c, m); W3 n = cr3(p1 - p0, p2 - p0); if (zero(n)) { p1 = p0 + W3{1, 0, 0}; p2 = p0 + W3{0, 1, 0}; n = cr3(p1 - p0, p2 - p0); }
    W3 a = pt3(c, m), b = pt3(c, m); if (c.chance(1, 3)) a = p0 + c.around(2) * (p1 - p0) + c.around(2) * (p2 - p0);
    VP_NOTE(c, "plane " << p0 << p1 << p2 << " segment " << a << b << " scale " << sc);
    I fa = dot3(n, a - p0), fb = dot3(n, b - p0); if (gx::sgn(fa) != gx::sgn(fb)) c.nontrivial();
    typedef plane<P3> PL; bool uv = c.chance(1, 2); PL pl = uv ? PL(T(p0, sc), V3((double)(p1 - p0).x, (double)(p1 - p0).y, (double)(p1 - p0).z), V3((double)(p2 - p0).x, (double)(p2 - p0).y, (double)(p2 - p0).z)) : PL(T(p0, sc), T(p1, sc), T(p2, sc));
    auto cls = [](I f) { return f > 0 ? plane_orientation::in_front_of_plane : f < 0 ? plane_orientation::in_back_of_plane : plane_orientation::coplanar_with_plane; };
    VP_CHECK(c, classify_point_to_plane(T(a, sc), pl, cmp()) == cls(fa) && classify_point_to_plane(T(b, sc), pl, cmp()) == cls(fb), "classify_point_to_plane", "classes of " << fa << "," << fb);
    auto both = [&](I x, I y) { return (x < 0 && y > 0) || (x > 0 && y < 0) ? plane_orientation::straddling_plane : cls(x ? x : y); };
    { segment<P3> s3(T(a, sc), T(b, sc)); VP_CHECK(c, classify_simplex_to_plane(s3, pl, cmp()) == both(fa, fb), "classify_simplex_to_plane-3d", "class for " << fa << "," << fb); }
    std::vector<W3> more{a, b}; { int k = (int)(c.chance(1, 24) ? c.range(16, 70) : c.range(1, 4)); bool fl = k > 4 && c.chance(2, 3); for (int i = 0; i < k; ++i) more.push_back((fl ? i < k - 1 : c.chance(1, 2)) ? p0 + c.around(2) * (p1 - p0) + c.around(2) * (p2 - p0) : pt3(c, m)); } if (c.chance(1, 3)) std::swap(more[0], more.back());
    { int f = 0, r = 0; polygon<P3> g3; polygon<P2> g2; for (auto& w : more) { I z = dot3(n, w - p0); f += z > 0; r += z < 0; g3.push_back(T(w, sc)); g2.push_back(P2(w.x * sc, w.y * sc)); } auto w3 = f && r ? plane_orientation::straddling_plane : f ? plane_orientation::in_front_of_plane : r ? plane_orientation::in_back_of_plane : plane_orientation::coplanar_with_plane; VP_CHECK(c, classify_simplex_to_plane(g3, pl, cmp()) == w3, "classify_simplex_to_plane-polygon", "polygon with " << f << " vertices in front and " << r << " behind");
      V q0(p0.x, p0.y), q1(p1.x, p1.y); if (q0 == q1) q1 = q1 + V(1, 0); f = r = 0; for (auto& w : more) { I z = gx::orient(q0, q1, V(w.x, w.y)); f += z > 0; r += z < 0; } auto want = f && r ? plane_orientation::straddling_plane : f ? plane_orientation::in_front_of_plane : r ? plane_orientation::in_back_of_plane : plane_orientation::coplanar_with_plane; VP_CHECK(c, classify_simplex_to_plane(g2, line<P2>(P(q0, sc), P(q1, sc)), cmp()) == want, "classify_simplex_to_plane-polygon-2d", "polygon with " << f << " vertices in front and " << r << " behind"); }
    LD nl = std::sqrt((double)dot3(n, n)); double dn = (double)(dot3(n, p0) / nl) * sc; VP_CHECK(c, std::fabs(pl.get_distance_to_origin() - dn) <= 1e-9 * (m + 1), "plane-distance", "distance to origin " << pl.get_distance_to_origin() << " expected " << dn);
    // crossing parameter; touching ends with an inexact normal is decided by rounding and only checked when strictly inside or outside
    auto seg = [&](const char* tag, I x, I y, bool hit, double t, bool okq) { if (x == y) return; Q w(x, x - y); if (w == Q(0) || w == Q(1)) return; bool in = w > Q(0) && w < Q(1); VP_CHECK(c, hit == in, tag, "hit " << hit << " expected " << in); VP_CHECK(c, std::fabs(t - w.dbl()) <= 1e-8 * (1 + std::fabs(t)), tag, "t " << t << " expected " << w); if (in) VP_CHECK(c, okq, tag, "intersection point wrong"); };
    { double t = -9; P3 q(1e9, 1e9, 1e9); bool h = segment_plane_intersection(T(a, sc), T(b, sc), pl, t, q); double w = fa == fb ? 0 : (double)fa / (double)(fa - fb); seg("segment_plane_intersection-3d", fa, fb, h, t, at3(q, (a.x + w * (b.x - a.x)) * sc, (a.y + w * (b.y - a.y)) * sc, (a.z + w * (b.z - a.z)) * sc, 1e-8)); }
    // 2d
    V l0(p0.x, p0.y), l1(p1.x, p1.y), s0(a.x, a.y), s1(b.x, b.y); if (l0 == l1) l1 = l1 + V(1, 0); I ga = gx::orient(l0, l1, s0), gb = gx::orient(l0, l1, s1);
    line<P2> ln(P(l0, sc), P(l1, sc)); VP_CHECK(c, classify_point_to_plane(P(s0, sc), ln, cmp()) == cls(ga), "classify_point_to_plane-2d", "class of " << ga);
    VP_CHECK(c, classify_simplex_to_plane(Seg(s0, s1, sc), ln, cmp()) == both(ga, gb), "classify_simplex_to_plane-2d", "class for " << ga << "," << gb);
    { double t = -9; P2 q(1e9, 1e9); bool h = segment_plane_intersection(P(s0, sc), P(s1, sc), ln, t, q); double w = ga == gb ? 0 : (double)ga / (double)(ga - gb); seg("segment_plane_intersection-2d", ga, gb, h, t, std::hypot(q[0] - (s0.x + w * (s1.x - s0.x)) * sc, q[1] - (s0.y + w * (s1.y - s0.y)) * sc) <= 1e-8); }
}
