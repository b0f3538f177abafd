// P27: directions - angles, rotations, angular order, betweenness, cones, slopes, splitting.
#include "gl.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/utility/vector_angle_compare.hpp>
#include <geometrix/utility/point_angle_compare.hpp>
#include <geometrix/algorithm/rotation.hpp>
#include <geometrix/algorithm/is_segment_in_range.hpp>
#include <geometrix/algorithm/segment_mid_point.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/split_segment.hpp>
#include <geometrix/algebra/vector_projection.hpp>
#include <array>
using namespace geometrix; using namespace gl; using vp::Case;
static const LD PI = 3.141592653589793238462643383279502884L;
static LD ang(V v) { LD a = atan2l((LD)v.y, (LD)v.x); return a < 0 ? a + 2 * PI : a; }
static V nz(Case& c, I m) { V v = gx::pt(c, m); return v == V(0, 0) ? V(1, 0) : v; }
static int half(V v) { return v.y > 0 || (v.y == 0 && v.x > 0) ? 0 : 1; }
static bool ccw_less(V a, V b) { if (half(a) != half(b)) return half(a) < half(b); return gx::cross(a, b) > 0; }  // by angle from +x in [0,2pi)
static V rel(V r, V v) { return V(gx::dot(r, v), gx::cross(r, v)); }                                          // v in the frame of r
static bool cclose(LD a, LD b, LD tol) { LD d = fmodl(fabsl(a - b), 2 * PI); return d <= tol || 2 * PI - d <= tol; }

VP_ASPECT(angles, 2000000, 8000000, "two points and an angle of up to thousands of turns, often at or next to a multiple of a quarter turn; non-trivial: the angle needs normalising") {
    I m = gx::grid(c); V a = gx::pt(c, m), b = gx::pt(c, m); if (a == b) b = a + V(1, 0); double s = pick_scale(c, m);
    double x = c.chance(1, 2) ? (double)c.around(4000) * (double)(PI / 4) : c.sreal(c.pick<double>({10., 1000., 1e5})); if (c.chance(1, 6)) x = std::nextafter(x, x + (c.chance(1, 2) ? 1 : -1)); VP_NOTE(c, "a " << a << " b " << b << " scale " << s << " angle " << x);
    LD w = ang(b - a); VP_CHECK(c, cclose(angle_from_a_to_b(P(a, s), P(b, s)), w, 1e-9L), "from-to", "angle_from_a_to_b = " << angle_from_a_to_b(P(a, s), P(b, s)) << " expected " << (double)w);
    double va = vector_angle(Vec(b - a, s)); VP_CHECK(c, cclose(va, w, 1e-12L) && va >= -(double)PI && va <= (double)PI, "vector-angle", "vector_angle = " << va << " expected " << (double)w);
    if (!(x >= 0 && x <= 2 * PI)) c.nontrivial(); LD tol = 1e-15L * fabsl((LD)x) + 1e-14L; double y = normalize_angle_0_2pi_copy(x), z = x; normalize_angle_0_2pi(z);
    VP_CHECK(c, y == z && y >= 0 && y <= 2 * (double)PI && cclose(y, x, tol), "normalize-0-2pi", "got " << y << " and " << z << " for " << x);
    double u = normalize_angle_minus_pi_to_pi_copy(x), v = x; normalize_angle_minus_pi_to_pi(v); VP_CHECK(c, u == v && u >= -(double)PI && u <= (double)PI && cclose(u, x, tol), "normalize-minus-pi", "got " << u << " and " << v << " for " << x);
}
static std::pair<V, I> unit(Case& c) { static const std::vector<std::array<I, 3>> T = {{{1, 0, 1}}, {{3, 4, 5}}, {{5, 12, 13}}, {{8, 15, 17}}, {{7, 24, 25}}, {{20, 21, 29}}, {{9, 40, 41}}}; auto t = c.pick(T); I x = t[0], y = t[1]; if (c.chance(1, 2)) std::swap(x, y); if (c.chance(1, 2)) x = -x; if (c.chance(1, 2)) y = -y; return {V(x, y), t[2]}; }
VP_ASPECT(rotations, 1250000, 6000000, "rational unit vectors, rotation origins and point sequences; non-trivial: the rotation is not the identity and the point is not the origin of rotation") {
    auto u1 = unit(c), u2 = unit(c); I m = c.pick<I>({3, 20, 200}); V p = gx::pt(c, m), o = gx::pt(c, m), t = gx::pt(c, m); V2 v1((double)u1.first.x / u1.second, (double)u1.first.y / u1.second), v2((double)u2.first.x / u2.second, (double)u2.first.y / u2.second);
    VP_NOTE(c, "v1 " << u1.first << "/" << u1.second << " v2 " << u2.first << "/" << u2.second << " p " << p << " origin " << o << " t " << t); if (!(u1 == u2) && p != o) c.nontrivial();
    LD k = (LD)(u1.second * u2.second), co = gx::dot(u1.first, u2.first) / k, si = gx::cross(u1.first, u2.first) / k; V d = p - o; LD rx = co * d.x - si * d.y, ry = si * d.x + co * d.y; P2 want((double)(o.x + rx), (double)(o.y + ry)); double tol = 1e-11 * (double)m;
    auto rot = make_rotation_matrix(v1, v2); P2 g1 = rotate_point(P(p), rot, P(o)), g2 = rotate_point(P(p), v1, v2, P(o)); VP_CHECK(c, dist(g1, want) < tol && dist(g2, want) < tol, "rotate-point", "got " << sh(g1) << sh(g2) << " expected " << sh(want));
    V2 w1 = rotate_vector(Vec(d), rot), w2 = rotate_vector(Vec(d), v1, v2), w3 = rotate_vector(v1, v1, v2); auto off = [](const V2& a, LD x, LD y) { return std::hypot(a[0] - (double)x, a[1] - (double)y); };
    VP_CHECK(c, off(w1, rx, ry) < tol && off(w2, rx, ry) < tol, "rotate-vector", "got " << w1[0] << "," << w1[1]); VP_CHECK(c, off(w3, v2[0], v2[1]) < 1e-13, "rotate-v1-to-v2", "got " << w3[0] << "," << w3[1]);
    Poly q; int n = (int)c.range(1, 6); for (int i = 0; i < n; ++i) q.push_back(gx::pt(c, m)); G2 g = Pg(q); L2 l = Pl(q); auto A = rotate_points(g, v1, v2, P(o)); auto B = rotate_translate_points(l, rot, Vec(t), P(o)); auto C = rotate_translate_points(g, v1, v2, Vec(t), P(o));
    VP_CHECK(c, (int)A.size() == n && (int)B.size() == n && (int)C.size() == n, "rotate-count", "lost points");
    for (int i = 0; i < n; ++i) { V e = q[i] - o; LD x = o.x + co * e.x - si * e.y, y = o.y + si * e.x + co * e.y; P2 w((double)x, (double)y), wt((double)(x + t.x), (double)(y + t.y)); VP_CHECK(c, dist(A[i], w) < tol, "rotate-points", "point " << i << sh(A[i]) << " expected " << sh(w)); VP_CHECK(c, dist(B[i], wt) < tol && dist(C[i], wt) < tol, "rotate-translate", "point " << i << sh(B[i]) << sh(C[i]) << " expected " << sh(wt)); }
}
VP_ASPECT(order, 2500000, 10000000, "three lattice vectors and a reference; non-trivial: two of them parallel or opposite, or the angle between the outer ones over half a turn") {
    I m = c.pick<I>({1, 2, 3, 5, 40}); V a = nz(c, m), b = nz(c, m), v = nz(c, m), r = c.chance(1, 3) ? V(1, 0) : nz(c, m); if (c.chance(1, 5)) b = c.pick<I>({1, 2, -1, -2}) * a; if (c.chance(1, 5)) v = c.pick<I>({1, 3, -1}) * (c.chance(1, 2) ? a : b); double s = c.pick<double>({1., 0.5, 4.}); V o = gx::pt(c, 20);
    VP_NOTE(c, "a " << a << " b " << b << " c " << v << " reference " << r << " scale " << s << " origin " << o); if (gx::cross(a, b) <= 0 || gx::cross(a, v) == 0) c.nontrivial();
    // betweenness: counter-clockwise from a to b
    V rb = rel(a, b), rv = rel(a, v); bool onA = gx::cross(a, v) == 0 && gx::dot(a, v) > 0, onB = gx::cross(b, v) == 0 && gx::dot(b, v) > 0; bool same = gx::cross(a, b) == 0 && gx::dot(a, b) > 0;
    bool in = onA || onB ? false : same ? false : ccw_less(rv, rb); VP_CHECK(c, is_vector_between(Vec(a, s), Vec(b, s), Vec(v, s), false, cmp()) == in, "between-open", "not " << in); bool inc = in || onA || onB; VP_CHECK(c, is_vector_between(Vec(a, s), Vec(b, s), Vec(v, s), true, cmp()) == inc, "between-closed", "not " << inc);
    typedef absolute_tolerance_comparison_policy<double> CP; bool w = ccw_less(rel(r, a), rel(r, b)); VP_CHECK(c, vector_angle_compare<CP>(Vec(r), cmp())(Vec(a, s), Vec(b, s)) == w, "vector-angle-compare", "not " << w); w = ccw_less(a, b);
    VP_CHECK(c, vector_angle_compare<CP>(cmp())(Vec(a, s), Vec(b, s)) == w, "vector-angle-compare-x", "not " << w); VP_CHECK(c, point_angle_compare<CP>(P(o, s), cmp())(P(o + a, s), P(o + b, s)) == w, "point-angle-compare", "not " << w);
    double pa = pseudo_angle(Vec(a, s)), pb = pseudo_angle(Vec(b, s)); VP_CHECK(c, pa >= 0 && pa < 4 && (ccw_less(a, b) ? pa < pb : ccw_less(b, a) ? pb < pa : std::fabs(pa - pb) < 1e-12), "pseudo-angle", "pseudo angles " << pa << " " << pb);
    if (a.y == 0) { double pn = pseudo_angle(V2((double)a.x * s, -0.0)); VP_CHECK(c, pn >= 0 && pn < 4 && std::fabs(pn - pa) < 1e-12, "pseudo-angle-negative-zero", "pseudo angle " << pn << " with y -0.0, " << pa << " with y 0.0"); }
    // collinearity and betweenness of points
    V A = o, B = o + a, C = o + v; double t = gx::orient(A, B, C) == 0; VP_CHECK(c, is_collinear(P(A, s), P(B, s), P(C, s), cmp()) == (t != 0), "collinear", "not " << t); bool closed = gx::on_seg(A, B, C), open = closed && C != A && C != B;
    VP_CHECK(c, is_between(P(A, s), P(B, s), P(C, s), true, cmp()) == closed && is_between(P(A, s), P(B, s), P(C, s), false, cmp()) == open, "is-between", "C between A,B: open " << open << " closed " << closed);
    if (t) VP_CHECK(c, is_collinear_point_between(P(A, s), P(B, s), P(C, s), true, cmp()) == closed && is_collinear_point_between(P(A, s), P(B, s), P(C, s), false, cmp()) == open, "collinear-between", "C between A,B: open " << open << " closed " << closed);
    int g = gx::side(A, B, C); VP_CHECK(c, get_orientation(P(A, s), P(B, s), P(C, s), cmp()) == (g > 0 ? oriented_left : g < 0 ? oriented_right : oriented_collinear), "orientation", "not " << g);
}
//! exact: closed segment a-b meets the closed cone ccw from lo to hi (less than half a turn) with apex at 0
static bool cone_has(V lo, V hi, V p) { return gx::cross(lo, p) >= 0 && gx::cross(hi, p) <= 0; }
static bool cone_hit(V lo, V hi, V a, V b, Q& t0, Q& t1) { // clip parameters
    t0 = Q(0); t1 = Q(1); I f0[2] = {gx::cross(lo, a), -gx::cross(hi, a)}, f1[2] = {gx::cross(lo, b), -gx::cross(hi, b)};
    for (int i = 0; i < 2; ++i) { if (f0[i] < 0 && f1[i] < 0) return false; if (f0[i] >= 0 && f1[i] >= 0) continue; Q t((__int128)f0[i], (__int128)f0[i] - f1[i]); if (f0[i] < 0) { if (t > t0) t0 = t; } else if (t < t1) t1 = t; }
    return !(t1 < t0);
}
VP_ASPECT(cone, 2000000, 10000000, "a cone of less than half a turn and a segment; non-trivial: both ends outside the cone and on different sides of one of its lines, or only one end inside") {
    I m = c.pick<I>({2, 4, 8, 30}); V lo = nz(c, m), hi = nz(c, m); if (gx::cross(lo, hi) < 0) std::swap(lo, hi); if (gx::cross(lo, hi) == 0) hi = V(-lo.y, lo.x); V a = gx::pt(c, m), b = gx::pt(c, m); if (c.chance(1, 6)) a = c.pick<I>({1, 2, -1, -2}) * (c.chance(1, 2) ? lo : hi); if (c.chance(1, 8)) b = c.pick<I>({1, -1, -3}) * (c.chance(1, 2) ? lo : hi);
    if (a == b) b = a + V(1, 2); V o = c.chance(1, 2) ? V(0, 0) : gx::pt(c, 9); double s = c.pick<double>({1., 0.5, 2.}); VP_NOTE(c, "lo " << lo << " hi " << hi << " segment " << a << b << " (relative to the origin) origin " << o << " scale " << s);
    bool inA = cone_has(lo, hi, a), inB = cone_has(lo, hi, b); Q t0, t1; bool hit = cone_hit(lo, hi, a, b, t0, t1); if (!inA && !inB && gx::on_seg(a, b, V(0, 0))) c.discard(); // only touches the apex
    if (inA != inB || (!inA && !inB && (gx::cross(lo, a) > 0) != (gx::cross(lo, b) > 0))) c.nontrivial(); c.label_if(hit && !inA && !inB, "passes-through");
    S2 S = Seg(o + a, o + b, s); bool g = is_segment_in_range_2d(S, Vec(lo), Vec(hi), P(o, s)); VP_CHECK(c, g == hit, "in-range", "reported " << g << " expected " << hit);
    if (c.chance(1, 2)) { double k = c.pick<double>({0.125, 1024.}); VP_CHECK(c, is_segment_in_range_2d(S, Vec(lo, k), Vec(hi, k), P(o, s)) == hit, "in-range-scaled", "cone directions scaled by " << k << " change the answer"); }
    bool graze = gx::cross(lo, a) == 0 || gx::cross(lo, b) == 0 || gx::cross(hi, a) == 0 || gx::cross(hi, b) == 0; P2 x[2]; bool h = is_segment_in_range_2d(S, Vec(lo), Vec(hi), P(o, s), x, cmp());
    VP_CHECK(c, h == hit, "in-range-points", "reported " << h << " expected " << hit);
    if (hit && h && !gx::on_seg(a, b, V(0, 0))) { auto at = [&](Q t) { LD u = t.ld(); return P2((double)((o.x + a.x + u * (b.x - a.x)) * s), (double)((o.y + a.y + u * (b.y - a.y)) * s)); }; P2 e0 = at(t0), e1 = at(t1); double tol = 1e-8 * (double)m; VP_CHECK(c, (dist(x[0], e0) < tol && dist(x[1], e1) < tol) || (dist(x[0], e1) < tol && dist(x[1], e0) < tol), "in-range-part", "reported part " << sh(x[0]) << sh(x[1]) << " expected " << sh(e0) << sh(e1)); }
}
VP_ASPECT(lines, 1500000, 6000000, "non-degenerate segments, coordinates, split sizes; non-trivial: the segment is neither horizontal nor vertical") {
    I m = gx::grid(c); V a = gx::pt(c, m), b = gx::pt(c, m); if (a == b) b = a + V(1, 1); double s = pick_scale(c, m); VP_NOTE(c, "segment " << a << b << " scale " << s); if (a.x != b.x && a.y != b.y) c.nontrivial(); S2 S = Seg(a, b, s); P2 A = P(a, s), B = P(b, s);
    VP_CHECK(c, is_vertical(S, cmp()) == (a.x == b.x) && is_vertical(A, B, cmp()) == (a.x == b.x) && is_horizontal(S, cmp()) == (a.y == b.y) && is_horizontal(A, B, cmp()) == (a.y == b.y), "vertical-horizontal", "wrong");
    I k = c.around(2 * m); if (a.x != b.x) { LD sl = (LD)(b.y - a.y) / (LD)(b.x - a.x), y = ((LD)a.y + sl * (k - a.x)) * s; double tol = 1e-9 * ((double)m + 1) * (std::fabs((double)sl) + 1); VP_CHECK(c, std::fabs(get_slope(S) - (double)sl) < 1e-10 * (1 + std::fabs((double)sl)) && std::fabs(get_slope(A, B) - (double)sl) < 1e-10 * (1 + std::fabs((double)sl)), "slope", "slope " << get_slope(S) << " expected " << (double)sl);
        double so = 77; VP_CHECK(c, std::fabs(y_of_x(A, B, (double)k * s) - (double)y) < tol && std::fabs(y_of_x(A, B, (double)k * s, so) - (double)y) < tol && std::fabs(so - (double)sl) < 1e-10 * (1 + std::fabs((double)sl)), "y-of-x", "y " << y_of_x(A, B, (double)k * s) << " expected " << (double)y << " slope " << so);
        if (a.y != b.y) { LD xx = ((LD)a.x + (k - a.y) / sl) * s; tol = 1e-9 * ((double)m + 1) * (1 / std::fabs((double)sl) + 1); VP_CHECK(c, std::fabs(x_of_y(A, B, (double)k * s) - (double)xx) < tol && std::fabs(x_of_y(A, B, (double)k * s, so) - (double)xx) < tol, "x-of-y", "x " << x_of_y(A, B, (double)k * s) << " expected " << (double)xx); } }
    P2 mid((a.x + b.x) * 0.5 * s, (a.y + b.y) * 0.5 * s); P2 m1 = segment_mid_point(S), m2 = segment_mid_point(A, B); VP_CHECK(c, dist(m1, mid) < 1e-9 && dist(m2, mid) < 1e-9, "mid-point", "got " << sh(m1) << sh(m2) << " expected " << sh(mid));
    V3 z1((double)a.x, (double)a.y, (double)b.x), z2((double)b.x, (double)b.y, (double)k); LD d = (LD)a.x * b.x + (LD)a.y * b.y + (LD)b.x * k, n2 = (LD)b.x * b.x + (LD)b.y * b.y + (LD)k * k;
    if (n2 > 0) { V3 q = vector_projection(z1, z2); for (int i = 0; i < 3; ++i) VP_CHECK(c, std::fabs(q[i] - (double)(d / n2 * z2[i])) < 1e-9 * (m + 1), "projection-3d", "component " << i << " = " << q[i] << " expected " << (double)(d / n2 * z2[i])); }
    if (!(b == V(0, 0)) && !(a == V(0, 0))) { LD q = (LD)gx::dot(a, b) / (LD)gx::dot(b, b); V2 g = vector_projection(Vec(a, s), Vec(b, s)); VP_CHECK(c, std::hypot(g[0] - (double)(q * b.x * s), g[1] - (double)(q * b.y * s)) < 1e-9 * (m + 1), "projection", "got " << g[0] << "," << g[1]); }
    double len = dist(A, B), mx = len / (double)c.range(1, 40) * c.pick<double>({1.0, 0.999, 1.001, 3.0}); auto segs = split_segment(S, mx); VP_CHECK(c, !segs.empty() && dist(segs.front().get_start(), A) == 0 && dist(segs.back().get_end(), B) == 0, "split-ends", "pieces do not start and end with the segment");
    LD sum = 0; for (std::size_t i = 0; i < segs.size(); ++i) { double l = dist(segs[i].get_start(), segs[i].get_end()); sum += l; VP_CHECK(c, l <= mx * (1 + 1e-12) && (segs.size() == 1 || l > 0), "split-size", "piece of length " << l << " over " << mx); if (i) VP_CHECK(c, dist(segs[i - 1].get_end(), segs[i].get_start()) == 0, "split-gap", "gap before piece " << i); VP_CHECK(c, pd(segs[i].get_start(), a, b, s) < 1e-9, "split-on", "piece off the segment"); }
    VP_CHECK(c, std::fabs((double)(sum - len)) < 1e-9 * (1 + len), "split-sum", "pieces add to " << (double)sum << " of " << len); VP_CHECK(c, segs.size() == 1 || (double)segs.size() < 2 * len / mx + 1e-6, "split-count", segs.size() << " pieces of at most " << mx << " for length " << len);
}
