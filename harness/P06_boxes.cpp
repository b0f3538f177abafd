// P06: axis-aligned box queries agree with exact lattice geometry.
#include "gl.hpp"
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/intersection/segment_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/line_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/aabb_aabb_intersection.hpp>
#include <geometrix/algorithm/cohen_sutherland_line_clipping.hpp>
using namespace geometrix; using namespace gl; using vp::Case;
typedef axis_aligned_bounding_box<P2> B2; typedef axis_aligned_bounding_box<P3> B3;
//! clip a + t*d, t in [lo,hi], by [l,h]^k; returns false when empty
template <int K> static bool clip(const I* a, const I* d, const I* l, const I* h, Q& lo, Q& hi, bool below = true, bool above = true) {
    bool hl = below, hh = above; // hl: lo bound set
    for (int k = 0; k < K; ++k) {
        if (d[k] == 0) { if (a[k] < l[k] || a[k] > h[k]) return false; continue; }
        Q x(l[k] - a[k], d[k]), y(h[k] - a[k], d[k]); if (y < x) std::swap(x, y);
        if (!hl || x > lo) { lo = x; hl = true; } if (!hh || y < hi) { hi = y; hh = true; }
    }
    return lo <= hi;
}
static double exact_scale(Case& c) { return c.pick<double>({1.0, 0.5, 0.125, 16.0}); }

VP_ASPECT(segment_box, 3200000, 30000000, "lattice segments (also zero-length) against solid boxes (also flat) in 2d and 3d, and rectangle clipping; non-trivial: they meet without an end inside, or touch only") {
    I m = gx::grid(c); double sc = exact_scale(c); I a[3], b[3], d[3], l[3], h[3];
    for (int k = 0; k < 3; ++k) { a[k] = c.around(m); b[k] = c.around(m); I x = c.around(m), y = c.around(m); l[k] = std::min(x, y); h[k] = std::max(x, y); }
    if (c.chance(1, 3)) for (int k = 0; k < 3; ++k) { a[k] = c.pick<I>({l[k], h[k], a[k]}); if (c.chance(1, 2)) b[k] = c.pick<I>({l[k] - 1, h[k] + 1, b[k]}); } // through a corner or edge
    if (c.chance(1, 6)) { I k = c.draw(3); b[k] = a[k]; }
    for (int k = 0; k < 3; ++k) d[k] = b[k] - a[k];
    VP_NOTE(c, "segment (" << a[0] << "," << a[1] << "," << a[2] << ")-(" << b[0] << "," << b[1] << "," << b[2] << ") box [" << l[0] << "," << h[0] << "]x[" << l[1] << "," << h[1] << "]x[" << l[2] << "," << h[2] << "] scale " << sc);
    Q lo2(0), hi2(1), lo3(0), hi3(1); bool m2 = clip<2>(a, d, l, h, lo2, hi2), m3 = clip<3>(a, d, l, h, lo3, hi3);
    if (m2 && (lo2 != Q(0) || hi2 != Q(1))) c.nontrivial(); c.label_if(m2 && lo2 == hi2, "touching"); c.label_if(m3, "meets in 3d"); c.label_if(!m2, "apart in 2d");
    B2 bb(P2(l[0] * sc, l[1] * sc), P2(h[0] * sc, h[1] * sc)); B3 b3(P3(l[0] * sc, l[1] * sc, l[2] * sc), P3(h[0] * sc, h[1] * sc, h[2] * sc)); P2 A(a[0] * sc, a[1] * sc), B(b[0] * sc, b[1] * sc);
    bool g2 = segment_aabb_intersection(A, B, bb); VP_CHECK(c, g2 == m2, "segment_aabb_intersection-2d", "hit " << g2 << " expected " << m2);
    bool g3 = segment_aabb_intersection(P3(a[0] * sc, a[1] * sc, a[2] * sc), P3(b[0] * sc, b[1] * sc, b[2] * sc), b3); VP_CHECK(c, g3 == m3, "segment_aabb_intersection-3d", "hit " << g3 << " expected " << m3);
    if (m <= 100) { double x0 = A[0], y0 = A[1], x1 = B[0], y1 = B[1]; bool g = cohen_sutherland_line_clip(x0, y0, x1, y1, l[0] * sc, h[0] * sc, l[1] * sc, h[1] * sc, cmp()); VP_CHECK(c, g == m2, "cohen_sutherland_line_clip", "accepted " << g << " expected " << m2);
        double tl = 1e-9 * (m + 1) * sc; if (m2) VP_CHECK(c, std::hypot(x0 - (double)(a[0] + lo2.ld() * d[0]) * sc, y0 - (double)(a[1] + lo2.ld() * d[1]) * sc) <= tl && std::hypot(x1 - (double)(a[0] + hi2.ld() * d[0]) * sc, y1 - (double)(a[1] + hi2.ld() * d[1]) * sc) <= tl, "cohen_sutherland_line_clip-ends", "clipped to (" << x0 << "," << y0 << ")-(" << x1 << "," << y1 << ") expected parameters " << lo2 << ".." << hi2); }
}

VP_ASPECT(ray_line_box, 3200000, 30000000, "rays and lines along lattice directions against solid boxes, origins outside, on and inside; non-trivial: a hit") {
    I m = gx::grid(c); double sc = exact_scale(c); I a[2], d[2], l[2], h[2];
    for (int k = 0; k < 2; ++k) { a[k] = c.around(m); I x = c.around(m), y = c.around(m); l[k] = std::min(x, y); h[k] = std::max(x, y); }
    { I g = std::min<I>(m, 20); d[0] = c.around(g); d[1] = c.around(g); if (c.chance(1, 2)) { I x = c.range(l[0], h[0]), y = c.range(l[1], h[1]); d[0] = x - a[0]; d[1] = y - a[1]; } if (!d[0] && !d[1]) d[0] = 1; }
    double len = std::sqrt((double)(d[0] * d[0] + d[1] * d[1])); V2 dir(d[0] / len, d[1] / len); if (dir[0] != 0 && std::fabs(dir[0]) < 1e-9) c.discard();
    VP_NOTE(c, "origin (" << a[0] << "," << a[1] << ") direction (" << d[0] << "," << d[1] << ") box [" << l[0] << "," << h[0] << "]x[" << l[1] << "," << h[1] << "] scale " << sc);
    bool inside = a[0] >= l[0] && a[0] <= h[0] && a[1] >= l[1] && a[1] <= h[1]; Q rl(0), rh(0), ll(0), lh(0); bool hitr = clip<2>(a, d, l, h, rl, rh, true, false), hitl = clip<2>(a, d, l, h, ll, lh, false, false);
    bool graze = d[0] && d[1] && (l[0] != h[0] && l[1] != h[1] ? hitl && ll == lh : hitl); // contact in a single corner (or a flat box) is decided by the rounding of the unit direction
    if (hitr) c.nontrivial(); c.label_if(inside, "origin inside"); c.label_if(graze, "grazing (verdict not asserted)"); c.label_if(!hitr && hitl, "box behind the ray"); c.label_if(!d[0] || !d[1], "axis parallel");
    B2 bb(P2(l[0] * sc, l[1] * sc), P2(h[0] * sc, h[1] * sc)); P2 O(a[0] * sc, a[1] * sc); double tl = 1e-9 * (m + 1) * (m + 1) * sc;
    auto on = [&](Q t, const P2& q) { return std::hypot(q[0] - (double)(a[0] + t.ld() * d[0]) * sc, q[1] - (double)(a[1] + t.ld() * d[1]) * sc) <= tl; }; auto pr = [&](Q t, double g) { return std::fabs(g - t.dbl() * len * sc) <= tl; };
    bool edge = hitr && !inside ? false : hitr && rl == rh; (void)edge;
    { double t = -9, t0 = -9, t1 = -9; P2 q(1e9, 1e9), q0(1e9, 1e9), q1(-1e9, 1e9); auto r = ray_aabb_intersection(O, dir, bb, t, q, cmp()); auto s = ray_aabb_intersection(O, dir, bb, t0, q0, t1, q1, cmp());
      bool skip = graze || (hitr && rl == rh && d[0] && d[1]); // single-point contact
      if (!skip || inside) { if (!skip) VP_CHECK(c, r.is_intersecting() == hitr && s.is_intersecting() == hitr && (r == hitr) && bool(s) == hitr, "ray_aabb_intersection", "hit " << r.is_intersecting() << "/" << s.is_intersecting() << " expected " << hitr); }
      if (hitr && r.is_intersecting()) { VP_CHECK(c, r.is_origin_inside() == inside, "ray_aabb_intersection-inside", "inside " << r.is_origin_inside() << " expected " << inside); VP_CHECK(c, pr(rl, t) && on(inside ? rh : rl, q), "ray_aabb_intersection-point", "t=" << t << " point " << sh(q) << " expected parameters " << rl << ".." << rh); }
      if (hitr && s.is_intersecting()) { VP_CHECK(c, s.is_origin_inside() == inside, "ray_aabb_intersection-inside", "inside " << s.is_origin_inside() << " expected " << inside); VP_CHECK(c, pr(rl, t0) && pr(rh, t1) && on(rl, q0) && on(rh, q1), "ray_aabb_intersection-interval", "t0=" << t0 << " t1=" << t1 << " points " << sh(q0) << sh(q1) << " expected parameters " << rl << ".." << rh); } }
    { double t0 = -9, t1 = -9; P2 q0(1e9, 1e9), q1(-1e9, 1e9); line<P2> ln(O, dir); auto s = line_aabb_intersection(ln, bb, t0, q0, t1, q1, cmp());
      if (!graze) { VP_CHECK(c, s.is_intersecting() == hitl && (s == hitl) && bool(s) == hitl, "line_aabb_intersection", "hit " << s.is_intersecting() << " expected " << hitl); if (hitl) VP_CHECK(c, pr(ll, t0) && pr(lh, t1) && on(ll, q0) && on(lh, q1), "line_aabb_intersection-interval", "t0=" << t0 << " t1=" << t1 << " points " << sh(q0) << sh(q1) << " expected parameters " << ll << ".." << lh); } }
}

template <int K, typename PT> struct Ops {
    typedef axis_aligned_bounding_box<PT> B; typedef std::vector<I> Vv;
    static PT mk(const I* p, double s);
};
template <> P2 Ops<2, P2>::mk(const I* p, double s) { return P2(p[0] * s, p[1] * s); }
template <> P3 Ops<3, P3>::mk(const I* p, double s) { return P3(p[0] * s, p[1] * s, p[2] * s); }
template <int K, typename PT> static void ops(Case& c, I m, double sc) {
    typedef axis_aligned_bounding_box<PT> B; I l[2][3], h[2][3], q[3]; for (int j = 0; j < 2; ++j) for (int k = 0; k < 3; ++k) { I x = c.around(m), y = c.around(m); l[j][k] = std::min(x, y); h[j][k] = std::max(x, y); }
    for (int k = 0; k < 3; ++k) q[k] = c.chance(1, 2) ? c.pick<I>({l[0][k], h[0][k]}) : c.around(m);
    VP_NOTE(c, K << "d box A [" << l[0][0] << "," << h[0][0] << "]x[" << l[0][1] << "," << h[0][1] << "]x[" << l[0][2] << "," << h[0][2] << "] box B [" << l[1][0] << "," << h[1][0] << "]x[" << l[1][1] << "," << h[1][1] << "]x[" << l[1][2] << "," << h[1][2] << "] point " << q[0] << "," << q[1] << "," << q[2] << " scale " << sc);
    B A(Ops<K, PT>::mk(l[0], sc), Ops<K, PT>::mk(h[0], sc)), Z(Ops<K, PT>::mk(l[1], sc), Ops<K, PT>::mk(h[1], sc)); PT p = Ops<K, PT>::mk(q, sc);
    bool in = true, ov = true, sub = true; for (int k = 0; k < K; ++k) { if (q[k] < l[0][k] || q[k] > h[0][k]) in = false; if (h[0][k] < l[1][k] || h[1][k] < l[0][k]) ov = false; if (l[1][k] < l[0][k] || h[1][k] > h[0][k]) sub = false; }
    if (ov || in) c.nontrivial(); c.label_if(sub, "contained"); c.label_if(ov && !sub, "overlapping"); c.label_if(in, "point inside");
    VP_CHECK(c, A.intersects(p) == in && A.intersects(p, cmp()) == in, "aabb-contains-point", "got " << A.intersects(p) << " expected " << in);
    VP_CHECK(c, A.intersects(Z) == ov && A.intersects(Z, cmp()) == ov && Z.intersects(A, cmp()) == ov && aabb_aabb_intersection(A, Z, cmp()) == ov, "aabb-overlap", "got " << A.intersects(Z) << " expected " << ov);
    VP_CHECK(c, A.contains(Z) == sub && A.contains(Z, cmp()) == sub, "aabb-contains", "got " << A.contains(Z) << " expected " << sub);
    B E = A; if (c.chance(1, 2)) E.expand(Z); else E.expand(Z.to_tuple()); B R(A.to_tuple()); B S = Z; S = A.to_tuple();
    for (int k = 0; k < K; ++k) { VP_CHECK(c, E.get_lower_bound()[k] == std::min(l[0][k], l[1][k]) * sc && E.get_upper_bound()[k] == std::max(h[0][k], h[1][k]) * sc, "aabb-expand", "axis " << k << " [" << E.get_lower_bound()[k] << "," << E.get_upper_bound()[k] << "]");
        VP_CHECK(c, R.get_lower_bound()[k] == l[0][k] * sc && R.get_upper_bound()[k] == h[0][k] * sc && S.get_lower_bound()[k] == l[0][k] * sc && S.get_upper_bound()[k] == h[0][k] * sc, "aabb-tuple", "axis " << k); }
    // box of a sequence, a sub-range and a segment
    int n = c.chance(1, 200) ? (int)c.range(8, 300) : (int)c.range(1, 7); std::vector<PT> pts; std::vector<std::array<I, 3>> raw; for (int i = 0; i < n; ++i) { std::array<I, 3> r{{c.around(m), c.around(m), c.around(m)}}; raw.push_back(r); pts.push_back(Ops<K, PT>::mk(r.data(), sc)); VP_NOTE(c, "sequence point " << r[0] << "," << r[1] << "," << r[2]); }
    std::size_t lo = (std::size_t)c.draw(n), hi = lo + (std::size_t)c.draw(n - lo);
    auto chk = [&](const char* tag, const B& b, std::size_t f, std::size_t t) { for (int k = 0; k < K; ++k) { I x = raw[f][k], y = raw[f][k]; for (std::size_t i = f; i <= t; ++i) { x = std::min(x, raw[i][k]); y = std::max(y, raw[i][k]); } VP_CHECK(c, b.get_lower_bound()[k] == x * sc && b.get_upper_bound()[k] == y * sc, tag, "axis " << k << " [" << b.get_lower_bound()[k] << "," << b.get_upper_bound()[k] << "] expected [" << x * sc << "," << y * sc << "]"); } };
    polyline<PT> seq(pts.begin(), pts.end()); chk("make_aabb-sequence", make_aabb<PT>(seq), 0, n - 1); chk("make_aabb-sequence", make_aabb<PT>(seq, cmp()), 0, n - 1);
    chk("make_aabb-subrange", make_aabb<PT>(seq, std::make_tuple(lo, hi)), lo, hi); chk("make_aabb-subrange", make_aabb<PT>(seq, std::make_tuple(lo, hi), cmp()), lo, hi);
    if (n > 1) { segment<PT> sg(pts[0], pts[1]); chk("make_aabb-segment", make_aabb<PT>(sg), 0, 1); chk("make_aabb-segment", make_aabb<PT>(sg, cmp()), 0, 1); }
    chk("get_bounds", make_aabb<PT>(get_bounds(seq, cmp())), 0, n - 1);
}
VP_ASPECT(box_algebra, 1600000, 10000000, "pairs of boxes, points and sequences in 2d/3d: containment, overlap, union, tuple round trip, bounds; non-trivial: overlap or containment") {
    I m = gx::grid(c); double sc = exact_scale(c); if (c.chance(1, 2)) ops<2, P2>(c, m, sc); else ops<3, P3>(c, m, sc);
}
