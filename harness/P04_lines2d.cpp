// P04: 2D segment/ray/line pair intersection agrees with exact lattice geometry.
#include "gl.hpp"
#include <geometrix/primitive/line.hpp>
#include <geometrix/algorithm/linear_components_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_line_intersection.hpp>
#include <geometrix/algorithm/line_intersection.hpp>
#include <geometrix/algorithm/orientation.hpp>
using namespace geometrix; using namespace gl; using vp::Case;

//! second segment related to the first in an interesting way
static void pair(Case& c, I m, V& a, V& b, V& u, V& v) {
    a = gx::pt(c, m); do { b = gx::pt(c, m); if (a == b) b = b + V(1, c.around(1)); } while (a == b);
    V d = b - a; I g = (I)gx::Q::g(d.x, d.y); V e(d.x / g, d.y / g);
    switch (c.draw(6)) {
    case 1: u = gx::pt(c, m); v = u + c.around(4) * e; break;                       // parallel
    case 2: u = a + c.around(g + 2) * e; v = a + c.range(-2, g + 2) * e; break;     // collinear
    case 3: u = a + c.range(0, g) * e; v = gx::pt(c, m); break;                     // one end on the first
    case 4: { V w = gx::pt(c, m); V x = a + c.range(0, g) * e; u = w; v = x + x - w; break; } // crossing at a lattice point
    case 5: u = c.chance(1, 2) ? a : b; v = gx::pt(c, m); break;                    // shared end
    default: u = gx::pt(c, m); v = gx::pt(c, m);
    }
    if (u == v) v = v + V(0, 1);
    if (c.chance(1, 4)) { std::swap(a, u); std::swap(b, v); }
    if (c.chance(1, 4)) std::swap(a, b);
    if (c.chance(1, 4)) std::swap(u, v);
}
static bool at(const P2& p, double x, double y, double tl) { return std::hypot(p[0] - x, p[1] - y) <= tl; }

VP_ASPECT(segment_segment, 4000000, 40000000, "pairs of proper lattice segments (random, parallel, collinear, end on other, lattice crossing, shared end); non-trivial: the segments meet or are parallel") {
    I m = gx::grid(c); double sc = pick_scale(c, m); V a, b, u, v; pair(c, m, a, b, u, v);
    VP_NOTE(c, "segments " << a << b << " and " << u << v << " scale " << sc);
    I den = gx::cross(b - a, v - u); bool meet = gx::seg_seg(a, b, u, v); bool par = den == 0; if (meet || par) c.nontrivial();
    int want; bool maybe_end = false; V e0, e1; // expected overlap
    if (!meet) want = e_non_crossing; else if (!par) want = gx::proper_cross(a, b, u, v) ? e_crossing : e_endpoint;
    else { want = e_overlapping; V s[4]; int k = 0; if (gx::on_seg(a, b, u)) s[k++] = u; if (gx::on_seg(a, b, v)) s[k++] = v; if (gx::on_seg(u, v, a)) s[k++] = a; if (gx::on_seg(u, v, b)) s[k++] = b; std::sort(s, s + k); e0 = s[0]; e1 = s[k - 1]; maybe_end = e0 == e1; }
    c.label_if(want == e_crossing, "crossing"); c.label_if(want == e_endpoint, "touching"); c.label_if(want == e_overlapping && !maybe_end, "overlapping"); c.label_if(maybe_end, "collinear end touch"); c.label_if(par && !meet, "parallel apart");
    double tl = 1e-9 * (m + 5) * sc; S2 s1 = Seg(a, b, sc), s2 = Seg(u, v, sc);
    for (int f = 0; f < 2; ++f) {
        P2 x[2] = {P2(1e9, 1e9), P2(-1e9, 1e9)};
        intersection_type r = f ? segment_segment_intersection(P(a, sc), P(b, sc), P(u, sc), P(v, sc), x, cmp()) : segment_segment_intersection(s1, s2, x, cmp());
        bool ok = r == want || (maybe_end && r == e_endpoint);
        VP_CHECK(c, ok, "segment_segment_intersection", "type " << r << " expected " << want);
        if (r == e_crossing || r == e_endpoint) { double wx, wy; if (maybe_end) { wx = e0.x; wy = e0.y; } else { Q t(gx::cross(u - a, v - u), den); wx = (double)(a.x + t.ld() * (b.x - a.x)); wy = (double)(a.y + t.ld() * (b.y - a.y)); }
            VP_CHECK(c, at(x[0], wx * sc, wy * sc, tl), "segment_segment_intersection-point", "point " << sh(x[0]) << " expected " << wx * sc << "," << wy * sc); }
        if (r == e_overlapping) { bool o = (at(x[0], e0.x * sc, e0.y * sc, tl) && at(x[1], e1.x * sc, e1.y * sc, tl)) || (at(x[1], e0.x * sc, e0.y * sc, tl) && at(x[0], e1.x * sc, e1.y * sc, tl));
            VP_CHECK(c, o, "segment_segment_intersection-overlap", "overlap " << sh(x[0]) << sh(x[1]) << " expected " << e0 << e1); }
    }
    intersection_type n = segment_segment_intersection(s1, s2, (P2*)0, cmp());
    VP_CHECK(c, n == want || (maybe_end && n == e_endpoint), "segment_segment_intersection-nopoints", "type " << n << " expected " << want);
}

VP_ASPECT(ray_segment, 3200000, 30000000, "ray from a lattice point along a lattice direction against a proper lattice segment; non-trivial: they meet or are parallel") {
    I m = gx::grid(c); double sc = pick_scale(c, m); V o, q, u, v; pair(c, m, o, q, u, v); V d = q - o; double len = std::sqrt((double)gx::dot(d, d)); V2 dir(d.x / len, d.y / len);
    VP_NOTE(c, "ray " << o << " dir " << d << " segment " << u << v << " scale " << sc);
    I den = gx::cross(d, v - u); int want = e_non_crossing; LD wt = 0, ft = 0; // near and far ray distance
    if (den) { Q t(gx::cross(u - o, v - u), den), k(gx::cross(u - o, d), den); if (t >= Q(0) && k >= Q(0) && k <= Q(1)) { want = (k == Q(0) || k == Q(1)) ? e_endpoint : e_crossing; wt = t.ld() * len; } }
    else if (gx::cross(d, u - o) == 0) { I p = gx::dot(d, u - o), r = gx::dot(d, v - o); if (p >= 0 || r >= 0) { want = e_overlapping; wt = (LD)std::max<I>(0, std::min(p, r)) / len; ft = (LD)std::max(p, r) / len; } }
    // grazing an end with a normalised direction is decided by rounding on wide lattices: not asserted there
    if (den && m > 20 && (gx::cross(u - o, v - u) == 0 || gx::cross(u - o, d) == 0 || gx::cross(v - o, d) == 0)) c.discard();
    if (want != e_non_crossing || den == 0) c.nontrivial();
    c.label_if(want == e_crossing, "crossing"); c.label_if(want == e_endpoint, "through an end"); c.label_if(want == e_overlapping, "overlapping"); c.label_if(den == 0 && want != e_overlapping, "parallel, no hit");
    double tl = 1e-9 * (m + 5) * (m + 5) * sc; P2 O = P(o, sc); S2 s = Seg(u, v, sc); auto on = [&](LD t, const P2& x) { return at(x, (double)(o.x * sc + t * sc * d.x / len), (double)(o.y * sc + t * sc * d.y / len), tl); };
    for (int f = 0; f < 2; ++f) {
        P2 x[2] = {P2(1e9, 1e9), P2(-1e9, 1e9)}; double t = -1e9;
        intersection_type r = f ? ray_segment_intersection(O, dir, P(u, sc), P(v, sc), t, x, cmp()) : ray_segment_intersection(O, dir, s, t, x, cmp());
        VP_CHECK(c, r == want, "ray_segment_intersection", "type " << r << " expected " << want);
        if (want != e_non_crossing) {
            VP_CHECK(c, std::fabs(t - (double)(wt * sc)) <= tl, "ray_segment_intersection-t", "distance " << t << " expected " << (double)(wt * sc));
            VP_CHECK(c, on(wt, x[0]), "ray_segment_intersection-point", "point " << sh(x[0]) << " is not at distance " << (double)(wt * sc));
            if (want == e_overlapping) VP_CHECK(c, on(ft, x[1]), "ray_segment_intersection-far", "far point " << sh(x[1]) << " is not at distance " << (double)(ft * sc));
        }
        intersection_type r2 = f ? ray_segment_intersection(O, dir, P(u, sc), P(v, sc), cmp()) : ray_segment_intersection(O, dir, s, cmp());
        VP_CHECK(c, r2 == want, "ray_segment_intersection-nopoints", "type " << r2 << " expected " << want);
    }
}

VP_ASPECT(lines, 3200000, 30000000, "line-line, line-segment, ray-line and oriented segment crossing on lattice input; non-trivial: parallel, or meeting") {
    I m = gx::grid(c); double sc = pick_scale(c, m); V a, b, u, v; pair(c, m, a, b, u, v); double tl = 1e-9 * (m + 5) * (m + 5) * sc;
    VP_NOTE(c, "A=" << a << " B=" << b << " C=" << u << " D=" << v << " scale " << sc);
    I den = gx::cross(b - a, v - u); bool col = den == 0 && gx::cross(b - a, u - a) == 0; int want = den ? e_crossing : col ? e_overlapping : e_non_crossing;
    if (!den || gx::seg_seg(a, b, u, v)) c.nontrivial(); c.label_if(col, "collinear"); c.label_if(!den && !col, "parallel");
    Q s, t; if (den) { s = Q(gx::cross(u - a, v - u), den); t = Q(gx::cross(u - a, b - a), den); }
    double wx = den ? (double)(a.x + s.ld() * (b.x - a.x)) * sc : 0, wy = den ? (double)(a.y + s.ld() * (b.y - a.y)) * sc : 0, big = tl * (1 + std::fabs(s.dbl()) + std::fabs(t.dbl()));
    P2 A = P(a, sc), B = P(b, sc), C = P(u, sc), D = P(v, sc), x(1e9, 1e9), y(1e9, 1e9), z(1e9, 1e9); double ls = -1e9, lt = -1e9;
    intersection_type r1 = line_line_intersect(A, B, C, D, x, ls, lt, cmp()), r2 = line_line_intersect(A, B, C, D, y, cmp());
    VP_CHECK(c, r1 == want && r2 == want, "line_line_intersect", "types " << r1 << "," << r2 << " expected " << want);
    if (den) {
        VP_CHECK(c, at(x, wx, wy, big) && at(y, wx, wy, big), "line_line_intersect-point", "points " << sh(x) << sh(y) << " expected " << wx << "," << wy);
        VP_CHECK(c, std::fabs(ls - s.dbl()) <= 1e-7 * (1 + std::fabs(ls)) && std::fabs(lt - t.dbl()) <= 1e-7 * (1 + std::fabs(lt)), "line_line_intersect-param", "s=" << ls << " t=" << lt << " expected " << s << " " << t);
    }
    int ws = den ? (t < Q(0) || t > Q(1) ? e_non_crossing : (t == Q(0) || t == Q(1)) ? e_endpoint : e_crossing) : want;
    intersection_type r3 = c.chance(1, 2) ? line_segment_intersect(A, B, C, D, z, cmp()) : line_segment_intersect(A, B, S2(C, D), z, cmp());
    VP_CHECK(c, r3 == ws, "line_segment_intersect", "type " << r3 << " expected " << ws);
    if (ws == e_crossing || ws == e_endpoint) VP_CHECK(c, at(z, wx, wy, tl), "line_segment_intersect-point", "point " << sh(z) << " expected " << wx << "," << wy);
    // ray from u towards v against the line a-b
    if (!(den && m > 20 && t == Q(0))) { V d = v - u; double len = std::sqrt((double)gx::dot(d, d)); V2 dir(d.x / len, d.y / len); line<P2> l(A, B); double rt = -1e9; P2 q(1e9, 1e9); auto r = ray_line_intersection(C, dir, l, rt, q, cmp());
      bool hit = den ? t >= Q(0) : col; VP_CHECK(c, r.is_intersecting() == hit && (r == hit) && (bool(r) == hit), "ray_line_intersection", "hit " << r.is_intersecting() << " expected " << hit);
      VP_CHECK(c, r.is_overlapping() == col, "ray_line_intersection-overlap", "overlap " << r.is_overlapping() << " expected " << col);
      if (den && hit) VP_CHECK(c, std::fabs(rt - t.dbl() * len * sc) <= big * 10 && at(q, wx, wy, big * 10), "ray_line_intersection-point", "t=" << rt << " point " << sh(q) << " expected " << wx << "," << wy); }
    { int o1 = gx::side(u, v, a), o2 = gx::side(u, v, b); bool meet = gx::seg_seg(a, b, u, v); intersection_type r = oriented_intersection(A, B, C, D, cmp());
      if (o1 && o2) { int w = !meet ? e_non_crossing : o1 > 0 ? e_intersect_left_right : e_intersect_right_left; VP_CHECK(c, r == w, "oriented_intersection", "type " << r << " expected " << w); }
      else { V lo = std::max(std::min(a, b), std::min(u, v)), hi = std::min(std::max(a, b), std::max(u, v)); int w = !meet ? e_non_crossing : col && lo < hi ? e_overlapping : e_endpoint; VP_CHECK(c, r == w, "oriented_intersection-touching", "type " << r << " expected " << w); }
      VP_CHECK(c, get_orientation(A, B, C, cmp()) == (gx::side(a, b, u) > 0 ? oriented_left : gx::side(a, b, u) < 0 ? oriented_right : oriented_collinear), "get_orientation", "orientation of " << u); }
}
