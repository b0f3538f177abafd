// P02: segment-to-shape and box-to-box distances are the exact infimum, with consistent witnesses.
#include "gl.hpp"
#include <geometrix/primitive/rectangle.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
#include <geometrix/algorithm/distance/segment_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/eberly_segment_segment_distance.hpp>
#include <geometrix/algorithm/distance/segment_polyline_distance.hpp>
#include <geometrix/algorithm/distance/segment_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_polygon_distance.hpp>
#include <geometrix/algorithm/distance/segment_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_obb_distance.hpp>
#include <geometrix/algorithm/distance/aabb_aabb_distance.hpp>
using namespace geometrix; using namespace gl; using vp::Case;
typedef long double LD;
static double scale(Case& c) { return c.pick<double>({1.0, 0.5, 0.125, 0.1, 1.0 / 3.0, 17.0}); }
static double tol(I m, double s) { return 1e-10 * (double)(m * m + 1) * s * s; }
static bool ok2(double got2, LD want, double tl) { return std::fabs(got2 - (double)want) <= tl; }
// a distance from its square: sqrt amplifies the error near zero, so compare squares as well
static bool ok1(double got, LD want, double tl) { return got >= 0 && std::fabs(got * got - (double)want) <= 2 * tl; }

static void witness(Case& c, const char* tag, double d2, LD want, double tl, double s, double t, const P2& c1, const P2& c2, P2 a, P2 b, P2 u, P2 v) {
    VP_CHECK(c, ok2(d2, want, tl), tag, "squared distance " << d2 << " expected " << (double)want);
    VP_CHECK(c, s >= 0 && s <= 1 && t >= 0 && t <= 1, std::string(tag) + "-param", "parameters s=" << s << " t=" << t);
    P2 e1(a[0] + s * (b[0] - a[0]), a[1] + s * (b[1] - a[1])), e2(u[0] + t * (v[0] - u[0]), u[1] + t * (v[1] - u[1]));
    double q = std::sqrt(tl) * 1e-3;
    VP_CHECK(c, dist(e1, c1) <= q && dist(e2, c2) <= q, std::string(tag) + "-witness", "points " << sh(c1) << sh(c2) << " do not match parameters s=" << s << " t=" << t << " which give " << sh(e1) << sh(e2));
    VP_CHECK(c, std::fabs(dist(c1, c2) * dist(c1, c2) - d2) <= tl, std::string(tag) + "-realise", "witness points are " << dist(c1, c2) << " apart, reported squared distance " << d2);
}

VP_ASPECT(segment_segment, 1000000, 30000000, "pairs of lattice segments incl. degenerate, parallel, collinear, touching and crossing; non-trivial: both segments proper and not in general position or disjoint") {
    I m = gx::grid(c); double sc = scale(c); V a = gx::pt(c, m), b = gx::pt(c, m), u, v;
    switch (c.draw(5)) {
    case 1: { V d = b - a; I k = c.around(2); V o = gx::pt(c, 3); u = a + o; v = u + k * d; break; } // parallel
    case 2: { V d = b - a; I k = c.around(3), l = c.around(3); u = a + k * d; v = a + l * d; break; } // collinear
    case 3: u = c.chance(1, 2) ? a : b; v = gx::pt(c, m); break;                                         // shares an end
    default: u = gx::pt(c, m); v = gx::pt(c, m);
    }
    VP_NOTE(c, "a=" << a << " b=" << b << " c=" << u << " d=" << v << " scale " << sc);
    Q d2 = gx::d2_seg_seg(a, b, u, v); LD w = d2.ld() * sc * sc; double tl = tol(4 * m + 3, sc);
    bool par = gx::cross(b - a, v - u) == 0; c.label_if(a == b || u == v, "degenerate"); c.label_if(par && a != b && u != v, "parallel"); c.label_if(d2.n == 0, "touching");
    if (a != b && u != v && (par || d2.n != 0 || gx::side(a, b, u) == 0)) c.nontrivial();
    S2 s1 = Seg(a, b, sc), s2 = Seg(u, v, sc); P2 pa = P(a, sc), pb = P(b, sc), pu = P(u, sc), pv = P(v, sc);
    double s = -9, t = -9; P2 c1(1e9, 1e9), c2(-1e9, 1e9); double r = segment_segment_closest_point(pa, pb, pu, pv, s, t, c1, c2, cmp());
    witness(c, "segment_segment_closest_point", r, w, tl, s, t, c1, c2, pa, pb, pu, pv);
    VP_CHECK(c, ok2(segment_segment_distance_sqrd(s1, s2, cmp()), w, tl) && ok2(segment_segment_distance_sqrd(pa, pb, pu, pv, cmp()), w, tl), "segment_segment_distance_sqrd", "got " << segment_segment_distance_sqrd(s1, s2, cmp()) << " expected " << (double)w);
    VP_CHECK(c, ok1(segment_segment_distance(s1, s2, cmp()), w, tl) && ok1(segment_segment_distance(pa, pb, pu, pv, cmp()), w, tl), "segment_segment_distance", "got " << segment_segment_distance(s1, s2, cmp()));
    VP_CHECK(c, std::fabs(segment_segment_distance_sqrd(s2, s1, cmp()) - r) <= 2 * tl, "segment_segment-symmetry", "asymmetric");
    VP_CHECK(c, ok2(eberly_segment_segment_distance_sqrd(s1, s2), w, tl), "eberly_segment_segment_distance_sqrd", "got " << eberly_segment_segment_distance_sqrd(s1, s2) << " expected " << (double)w);
}

VP_ASPECT(segment_sequence, 400000, 12000000, "segment against polyline / polygon border, whole and sub-range; non-trivial: segment disjoint from the border") {
    I m = gx::grid(c); double sc = scale(c); Poly g = gx::gen_simple(c, m, 10); g = gx::rotate_start(c, g); if (c.chance(1, 2)) std::reverse(g.begin(), g.end());
    V a = gx::probe(c, g, m), b = gx::probe(c, g, m); std::size_t n = g.size(); P2 pa = P(a, sc), pb = P(b, sc); S2 sg = Seg(a, b, sc); double tl = tol(4 * m + 3, sc);
    std::size_t lo = (std::size_t)c.draw(n - 1), hi = lo + 1 + (std::size_t)c.draw(n - 1 - lo);
    VP_NOTE(c, "segment " << a << b << " vertices " << g << " sub-range [" << lo << "," << hi << "] scale " << sc);
    Q cl(1000000000000LL), op(1000000000000LL), sb(1000000000000LL);
    for (std::size_t i = 0; i < n; ++i) { Q d = gx::d2_seg_seg(a, b, g[i], g[(i + 1) % n]); cl = gx::qmin(cl, d); if (i + 1 < n) op = gx::qmin(op, d); if (i >= lo && i < hi) sb = gx::qmin(sb, d); }
    if (cl.n != 0) c.nontrivial(); c.label_if(cl != op, "closing edge strictly nearest"); c.label_if(cl.n == 0, "touching");
    LD wc = cl.ld() * sc * sc, wo = op.ld() * sc * sc, ws = sb.ld() * sc * sc; G2 pg = Pg(g, sc); L2 pl = Pl(g, sc);
    VP_CHECK(c, ok2(segment_polygon_distance_sqrd(sg, pg, cmp()), wc, tl) && ok2(segment_polygon_distance_sqrd(pa, pb, pg, cmp()), wc, tl), "segment_polygon_distance_sqrd", "got " << segment_polygon_distance_sqrd(sg, pg, cmp()) << " expected " << (double)wc);
    VP_CHECK(c, ok1(segment_polygon_distance(sg, pg, cmp()), wc, tl) && ok1(segment_polygon_distance(pa, pb, pg, cmp()), wc, tl), "segment_polygon_distance", "got " << segment_polygon_distance(sg, pg, cmp()));
    VP_CHECK(c, ok2(segment_polyline_distance_sqrd(sg, pl, cmp()), wo, tl) && ok2(segment_polyline_distance_sqrd(pa, pb, pl, cmp()), wo, tl), "segment_polyline_distance_sqrd", "got " << segment_polyline_distance_sqrd(sg, pl, cmp()) << " expected " << (double)wo);
    VP_CHECK(c, ok1(segment_polyline_distance(sg, pl, cmp()), wo, tl) && ok1(segment_polyline_distance(pa, pb, pl, cmp()), wo, tl), "segment_polyline_distance", "got " << segment_polyline_distance(sg, pl, cmp()));
    auto run = [&](const char* tag, LD want, int form) {
        std::size_t idx = 9999; double s = -9, t = -9, r = -1; P2 c1(1e9, 1e9), c2(-1e9, 1e9); std::tuple<std::size_t, std::size_t> sub(lo, hi);
        switch (form) {
        case 0: r = segment_polygon_closest_point(sg, pg, idx, s, t, c1, c2, cmp()); break; case 1: r = segment_polygon_closest_point(pa, pb, pg, idx, s, t, c1, c2, cmp()); break;
        case 2: r = segment_polygon_closest_point(sg, sub, pg, idx, s, t, c1, c2, cmp()); break; case 3: r = segment_polygon_closest_point(pa, pb, sub, pg, idx, s, t, c1, c2, cmp()); break;
        case 4: r = segment_polyline_closest_point(sg, pl, idx, s, t, c1, c2, cmp()); break; case 5: r = segment_polyline_closest_point(pa, pb, pl, idx, s, t, c1, c2, cmp()); break;
        case 6: r = segment_polyline_closest_point(sg, sub, pl, idx, s, t, c1, c2, cmp()); break; default: r = segment_polyline_closest_point(pa, pb, sub, pl, idx, s, t, c1, c2, cmp());
        }
        VP_CHECK(c, idx < n, std::string(tag) + "-index", "edge index " << idx);
        bool sr = form == 2 || form == 3 || form >= 6; if (sr) VP_CHECK(c, idx >= lo && idx < hi, std::string(tag) + "-index", "edge index " << idx << " outside the sub-range"); else if (form >= 4) VP_CHECK(c, idx + 1 < n, std::string(tag) + "-index", "edge index " << idx);
        witness(c, tag, r, want, tl, s, t, c1, c2, pa, pb, P(g[idx], sc), P(g[(idx + 1) % n], sc));
    };
    run("segment_polygon_closest_point", wc, (int)c.draw(2)); run("segment_polygon_closest_point-subrange", ws, 2 + (int)c.draw(2));
    run("segment_polyline_closest_point", wo, 4 + (int)c.draw(2)); run("segment_polyline_closest_point-subrange", ws, 6 + (int)c.draw(2));
}

VP_ASPECT(segment_box, 600000, 20000000, "segment against the border of an oriented box, and pairs of axis-aligned boxes in 2d/3d; non-trivial: disjoint") {
    I m = gx::grid(c); double sc = scale(c); double tl = tol(6 * m + 9, sc) * 4;
    { // integer obb through Pythagorean axes: corners at ctr +- hu*(a,b) +- hv*(-b,a) (lengths hu*h, hv*h)
        struct R { int a, b, h; }; R r = c.pick<R>({{1, 0, 1}, {3, 4, 5}, {0, 1, 1}, {-4, 3, 5}, {5, -12, 13}});
        V ctr = gx::pt(c, m); I hu = c.range(1, std::max<I>(1, m / 2)), hv = c.range(1, std::max<I>(1, m / 2)); V U(r.a, r.b), W(-r.b, r.a); if (c.chance(1, 3)) W = V(r.b, -r.a);
        Poly cr{ctr - hu * U - hv * W, ctr + hu * U - hv * W, ctr + hu * U + hv * W, ctr - hu * U + hv * W};
        V a = gx::probe(c, cr, m * 4), b = gx::probe(c, cr, m * 4); VP_NOTE(c, "box corners " << cr << " segment " << a << b << " scale " << sc);
        Q w(1000000000000LL); for (int i = 0; i < 4; ++i) w = gx::qmin(w, gx::d2_seg_seg(a, b, cr[i], cr[(i + 1) % 4])); bool inside = gx::locate(gx::make_ccw(cr), a) > 0 && gx::locate(gx::make_ccw(cr), b) > 0; c.label_if(inside, "segment strictly inside");
        if (w.n) c.nontrivial();
        if (!inside) { // for a segment strictly inside, border and solid readings differ: not asserted
            oriented_bounding_box<P2, V2> ob(P(ctr, sc), V2((double)U.x / r.h, (double)U.y / r.h), V2((double)W.x / r.h, (double)W.y / r.h), hu * r.h * sc, hv * r.h * sc);
            tl = tol((I)(std::fabs((double)ctr.x) + std::fabs((double)ctr.y) + (hu + hv) * r.h) + 4 * m, sc) * 9; LD ww = w.ld() * sc * sc;
            double g = segment_obb_distance_sqrd(Seg(a, b, sc), ob, cmp()); VP_CHECK(c, ok2(g, ww, tl), "segment_obb_distance_sqrd", "got " << g << " expected " << (double)ww);
            VP_CHECK(c, ok1(segment_obb_distance(Seg(a, b, sc), ob, cmp()), ww, tl), "segment_obb_distance", "got " << segment_obb_distance(Seg(a, b, sc), ob, cmp()));
        }
    }
    I lo[2][3], hi[2][3]; I w2 = 0, w3 = 0;
    for (int k = 0; k < 3; ++k) { for (int j = 0; j < 2; ++j) { I x = c.around(m), y = c.around(m); lo[j][k] = std::min(x, y); hi[j][k] = std::max(x, y); } I e = std::max<I>(0, std::max(lo[1][k] - hi[0][k], lo[0][k] - hi[1][k])); w3 += e * e; if (k < 2) w2 += e * e; }
    if (w2) c.nontrivial();
    VP_NOTE(c, "box A [" << lo[0][0] << "," << hi[0][0] << "]x[" << lo[0][1] << "," << hi[0][1] << "]x[" << lo[0][2] << "," << hi[0][2] << "] box B [" << lo[1][0] << "," << hi[1][0] << "]x[" << lo[1][1] << "," << hi[1][1] << "]x[" << lo[1][2] << "," << hi[1][2] << "]");
    tl = tol(4 * m + 2, sc); typedef axis_aligned_bounding_box<P2> B2; typedef axis_aligned_bounding_box<P3> B3;
    B2 A2(P2(lo[0][0] * sc, lo[0][1] * sc), P2(hi[0][0] * sc, hi[0][1] * sc)), Z2(P2(lo[1][0] * sc, lo[1][1] * sc), P2(hi[1][0] * sc, hi[1][1] * sc));
    VP_CHECK(c, ok2(aabb_aabb_distance_sqrd(A2, Z2), w2 * sc * sc, tl) && ok1(aabb_aabb_distance(A2, Z2), w2 * sc * sc, tl), "aabb_aabb_distance-2d", "got squared " << aabb_aabb_distance_sqrd(A2, Z2) << " expected " << w2 * sc * sc);
    B3 A3(P3(lo[0][0] * sc, lo[0][1] * sc, lo[0][2] * sc), P3(hi[0][0] * sc, hi[0][1] * sc, hi[0][2] * sc)), Z3(P3(lo[1][0] * sc, lo[1][1] * sc, lo[1][2] * sc), P3(hi[1][0] * sc, hi[1][1] * sc, hi[1][2] * sc));
    VP_CHECK(c, ok2(aabb_aabb_distance_sqrd(A3, Z3), w3 * sc * sc, tl) && ok1(aabb_aabb_distance(A3, Z3), w3 * sc * sc, tl), "aabb_aabb_distance-3d", "got squared " << aabb_aabb_distance_sqrd(A3, Z3) << " expected " << w3 * sc * sc);
}
