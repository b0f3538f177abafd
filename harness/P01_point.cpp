// P01: point-to-shape distance and closest point = exact infimum over the shape.
#include "gl.hpp"
#include <array>
#include <geometrix/primitive/rectangle.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polyline_distance.hpp>
#include <geometrix/algorithm/distance/point_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polygon_distance.hpp>
#include <geometrix/algorithm/distance/point_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/point_aabb_distance.hpp>
#include <geometrix/algorithm/distance/point_obb_distance.hpp>
#include <geometrix/algorithm/distance/point_line_distance.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/distance_compare.hpp>
using namespace geometrix; using namespace gl; using vp::Case;
typedef long double LD;

static double scale(Case& c) { return c.pick<double>({1.0, 0.5, 0.125, 0.1, 1.0 / 3.0, 17.0}); }
static double tol(I m, double s) { return 1e-11 * (double)(m * m + 1) * s * s; } // on squared distances

static LD ref_d2(P2 p, P2 a, P2 b, LD& tt) {
    LD ux = (LD)b[0] - a[0], uy = (LD)b[1] - a[1], wx = (LD)p[0] - a[0], wy = (LD)p[1] - a[1], l2 = ux * ux + uy * uy;
    LD t = l2 > 0 ? (ux * wx + uy * wy) / l2 : 0; if (t < 0) t = 0; if (t > 1) t = 1; tt = t;
    LD dx = wx - t * ux, dy = wy - t * uy; return dx * dx + dy * dy;
}
static void check_d(Case& c, const char* tag, double got2, double got, LD want2, double tl) {
    VP_CHECK(c, std::fabs(got2 - (double)want2) <= tl, std::string(tag) + "-sqrd", "squared distance " << got2 << " expected " << (double)want2);
    VP_CHECK(c, std::fabs(got - std::sqrt((double)want2)) <= std::sqrt(tl) && std::fabs(got * got - (double)want2) <= 4 * tl, tag, "distance " << got << " expected " << std::sqrt((double)want2));
}

VP_ASPECT(point_segment, 2400000, 40000000, "point and segment on small lattices times a scale, optionally perturbed in doubles; non-trivial: foot of the perpendicular strictly inside the segment or the point on the segment") {
    I m = gx::grid(c); double s = scale(c); P2 a = P(gx::pt(c, m), s), b = P(gx::pt(c, m), s), p = P(gx::pt(c, m), s);
    int mode = (int)c.draw(4);
    if (mode == 1) { double t = c.real(0, 1); p = P2(a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])); }
    if (mode == 2) { p = P2(c.sreal(m * s), c.sreal(m * s)); a = P2(c.sreal(m * s), c.sreal(m * s)); b = P2(c.sreal(m * s), c.sreal(m * s)); }
    if (mode == 3) { double t = c.real(-0.5, 1.5), k = c.sreal(1e-3); double ux = b[0] - a[0], uy = b[1] - a[1]; p = P2(a[0] + t * ux - k * uy, a[1] + t * uy + k * ux); }
    bool degen = a[0] == b[0] && a[1] == b[1];
    VP_NOTE(c, "p=" << sh(p) << " a=" << sh(a) << " b=" << sh(b));
    LD t; LD want = ref_d2(p, a, b, t); double tl = tol(m, s) * 9;
    c.label_if(degen, "degenerate segment"); c.label_if(t > 0 && t < 1, "interior foot"); c.label_if(want < 1e-20L, "point on segment");
    if ((t > 0 && t < 1) || want < 1e-20L) c.nontrivial();
    S2 seg(a, b);
    check_d(c, "point_segment_distance", point_segment_distance_sqrd(p, seg), point_segment_distance(p, seg), want, tl);
    VP_CHECK(c, std::fabs(point_segment_distance_sqrd(p, a, b) - (double)want) <= tl, "point_segment_distance-3arg", "3-argument squared distance differs");
    P2 q = point_segment_closest_point(p, seg); LD tq; LD off = ref_d2(q, a, b, tq);
    VP_CHECK(c, off <= tl * 1e-3L && std::fabs((double)(dist(p, q) * dist(p, q) - want)) <= tl, "point_segment_closest_point", "closest " << sh(q) << " distance2 " << dist(p, q) * dist(p, q) << " expected " << (double)want);
    {
        P2 q2 = point_segment_closest_point(p, a, b);
        VP_CHECK(c, dist(q, q2) <= std::sqrt(tl), "point_segment_closest_point-3arg", "closest " << sh(q2) << " vs " << sh(q));
        double par = -99; P2 q3 = point_segment_closest_point_and_param(p, a, b, par);
        VP_CHECK(c, dist(q, q3) <= std::sqrt(tl), "point_segment_closest_point_and_param", "closest " << sh(q3) << " vs " << sh(q));
        double pc = par < 0 ? 0 : par > 1 ? 1 : par; LD len = std::sqrt((b[0] - a[0]) * (b[0] - a[0]) + (b[1] - a[1]) * (b[1] - a[1]));
        VP_CHECK(c, std::fabs(pc - (double)t) * len <= std::sqrt(tl), "closest-param", "param " << par << " expected " << (double)t);
    }
}

VP_ASPECT(point_sequence, 1000000, 12000000, "point against polyline, polygon border and collections of polygons; non-trivial: the minimum is attained on exactly one edge or on the closing edge") {
    I m = gx::grid(c); double s = scale(c); Poly g = c.chance(1, 4) ? gx::gen_any_chain(c, m, 10) : gx::gen_simple(c, m, 10);
    V p = gx::probe(c, g, m); P2 pp = P(p, s); double tl = tol(m, s) * 9;
    VP_NOTE(c, "p=" << p << " vertices=" << g << " scale=" << s);
    Q best(1000000000000LL), open(1000000000000LL); int cnt = 0; std::size_t n = g.size(); bool closing = false;
    for (std::size_t i = 0; i < n; ++i) { Q d = gx::d2_pt_seg(p, g[i], g[(i + 1) % n]); if (d < best) { best = d; cnt = 1; closing = i + 1 == n; } else if (d == best) { ++cnt; closing = false; } if (i + 1 < n) open = gx::qmin(open, d); }
    if (cnt == 1 || closing) c.nontrivial(); c.label_if(closing, "closing edge is nearest"); c.label_if(best.n == 0, "point on border");
    LD w = best.ld() * s * s, wo = open.ld() * s * s;
    L2 pl = Pl(g, s);
    check_d(c, "point_polyline_distance", point_polyline_distance_sqrd(pp, pl), point_polyline_distance(pp, pl), wo, tl);
    P2 q = point_polyline_closest_point(pp, pl); double off = 1e300; for (std::size_t i = 0; i + 1 < n; ++i) off = std::min(off, pd(q, g[i], g[i + 1], s));
    VP_CHECK(c, off <= std::sqrt(tl) * 1e-3 && std::fabs(dist(pp, q) * dist(pp, q) - (double)wo) <= tl, "point_polyline_closest_point", "closest " << sh(q) << " off the polyline by " << off << " distance " << dist(pp, q) << " expected " << std::sqrt((double)wo));
    if (n >= 3) {
        G2 pg = Pg(g, s);
        check_d(c, "point_polygon_distance", point_polygon_distance_sqrd(pp, pg), point_polygon_distance(pp, pg), w, tl);
        P2 q2 = point_polygon_closest_point(pp, pg); off = 1e300; for (std::size_t i = 0; i < n; ++i) off = std::min(off, pd(q2, g[i], g[(i + 1) % n], s));
        VP_CHECK(c, off <= std::sqrt(tl) * 1e-3 && std::fabs(dist(pp, q2) * dist(pp, q2) - (double)w) <= tl, "point_polygon_closest_point", "closest " << sh(q2) << " off by " << off << " distance " << dist(pp, q2) << " expected " << std::sqrt((double)w));
        // collection
        std::vector<G2> col; std::vector<Poly> cp; int k = (int)c.range(1, 3); std::size_t at = (std::size_t)c.draw(k);
        Q cb(1000000000000LL);
        for (int i = 0; i < k; ++i) { Poly h = (std::size_t)i == at ? g : gx::translate(gx::gen_convex(c, m, 5), gx::pt(c, 2 * m)); cp.push_back(h); col.push_back(Pg(h, s)); for (std::size_t j = 0; j < h.size(); ++j) cb = gx::qmin(cb, gx::d2_pt_seg(p, h[j], h[(j + 1) % h.size()])); }
        P2 q3 = point_polygon_collection_closest_point(pp, col); LD wc = cb.ld() * s * s; off = 1e300;
        for (auto& h : cp) for (std::size_t i = 0; i < h.size(); ++i) off = std::min(off, pd(q3, h[i], h[(i + 1) % h.size()], s));
        VP_CHECK(c, off <= std::sqrt(tl) * 1e-3 && std::fabs(dist(pp, q3) * dist(pp, q3) - (double)wc) <= tl, "point_polygon_collection_closest_point", "closest " << sh(q3) << " off by " << off << " distance " << dist(pp, q3) << " expected " << std::sqrt((double)wc));
    }
}

VP_ASPECT(point_boxes, 1600000, 20000000, "point against axis-aligned boxes (2d,3d) and oriented boxes (Pythagorean orientations); non-trivial: point outside the box") {
    I m = gx::grid(c); double s = scale(c); double tl = tol(m, s) * 30;
    { // aabb 3d and its 2d shadow
        I lo[3], hi[3], q[3]; I want = 0, want2 = 0;
        for (int k = 0; k < 3; ++k) { I x = c.around(m), y = c.around(m); lo[k] = std::min(x, y); hi[k] = std::max(x, y); q[k] = c.around(m + 1); I e = q[k] < lo[k] ? lo[k] - q[k] : q[k] > hi[k] ? q[k] - hi[k] : 0; want += e * e; if (k < 2) want2 += e * e; }
        VP_NOTE(c, "lo=(" << lo[0] << "," << lo[1] << "," << lo[2] << ") hi=(" << hi[0] << "," << hi[1] << "," << hi[2] << ") p=(" << q[0] << "," << q[1] << "," << q[2] << ") scale " << s);
        if (want2 > 0) c.nontrivial();
        axis_aligned_bounding_box<P3> b3(P3(lo[0] * s, lo[1] * s, lo[2] * s), P3(hi[0] * s, hi[1] * s, hi[2] * s)); P3 p3(q[0] * s, q[1] * s, q[2] * s);
        check_d(c, "point_aabb_distance-3d", point_aabb_distance_sqrd(p3, b3), point_aabb_distance(p3, b3), (LD)want * s * s, tl);
        auto cl = point_aabb_closest_point(p3, b3);
        for (int k = 0; k < 3; ++k) VP_CHECK(c, std::fabs(cl[k] - std::min(std::max(q[k], lo[k]), hi[k]) * s) < 1e-12 * (m + 1) * s, "point_aabb_closest_point-3d", "axis " << k << " got " << cl[k]);
        axis_aligned_bounding_box<P2> b2(P2(lo[0] * s, lo[1] * s), P2(hi[0] * s, hi[1] * s)); P2 p2(q[0] * s, q[1] * s);
        check_d(c, "point_aabb_distance-2d", point_aabb_distance_sqrd(p2, b2), point_aabb_distance(p2, b2), (LD)want2 * s * s, tl);
        auto c2 = point_aabb_closest_point(p2, b2);
        for (int k = 0; k < 2; ++k) VP_CHECK(c, std::fabs(c2[k] - std::min(std::max(q[k], lo[k]), hi[k]) * s) < 1e-12 * (m + 1) * s, "point_aabb_closest_point-2d", "axis " << k << " got " << c2[k]);
    }
    { // obb
        struct R { int a, b, h; }; R r = c.pick<R>({{1, 0, 1}, {3, 4, 5}, {0, 1, 1}, {-5, 12, 13}, {8, -15, 17}, {-7, -24, 25}, {20, 21, 29}});
        V ctr = gx::pt(c, m); I hu = c.range(0, m), hv = c.range(0, m); I x = c.around(m), y = c.around(m); bool flip = c.chance(1, 3);
        LD ux = (LD)r.a / r.h, uy = (LD)r.b / r.h, vx = flip ? uy : -uy, vy = flip ? -ux : ux;
        oriented_bounding_box<P2, V2> b(P(ctr, s), V2((double)ux, (double)uy), V2((double)vx, (double)vy), hu * s, hv * s);
        P2 p = c.chance(1, 2) ? P(V(x, y), s) : P2((double)((ctr.x + x * ux + y * vx) * s), (double)((ctr.y + x * uy + y * vy) * s));
        VP_NOTE(c, "obb centre " << ctr << " u=(" << r.a << "," << r.b << ")/" << r.h << " flip " << flip << " half " << hu << "," << hv << " p=" << sh(p));
        LD wx = p[0] - (LD)(ctr.x * s), wy = p[1] - (LD)(ctr.y * s), du = wx * ux + wy * uy, dv = wx * vx + wy * vy, HU = hu * (LD)s, HV = hv * (LD)s;
        LD eu = du > HU ? du - HU : du < -HU ? du + HU : 0, ev = dv > HV ? dv - HV : dv < -HV ? dv + HV : 0, w = eu * eu + ev * ev;
        check_d(c, "point_obb_distance", point_obb_distance_sqrd(p, b), point_obb_distance(p, b), w, tl);
        auto q = point_obb_closest_point(p, b);
        LD cu = du - eu, cv = dv - ev; P2 e((double)(ctr.x * (LD)s + cu * ux + cv * vx), (double)(ctr.y * (LD)s + cu * uy + cv * vy));
        VP_CHECK(c, dist(q, e) <= 1e-11 * (m + 1) * s * 4, "point_obb_closest_point", "closest " << sh(q) << " expected " << sh(e));
        // border accessors
        for (int i = 0; i < 4; ++i) { LD su = (i == 1 || i == 2) ? 1 : -1, sv = (i >= 2) ? 1 : -1; P2 e2((double)(ctr.x * (LD)s + su * HU * ux + sv * HV * vx), (double)(ctr.y * (LD)s + su * HU * uy + sv * HV * vy)); P2 g = b[i]; VP_CHECK(c, dist(g, e2) < 1e-11 * (m + 1) * s * 4, "obb-corner", "corner " << i << " " << sh(g) << " expected " << sh(e2)); }
        if (hu > 0 && hv > 0) {
            auto rb = make_obb<P2, V2>(b.get_rectangle());
            VP_CHECK(c, std::fabs(rb.get_halfwidth(0) - b.get_halfwidth(0)) + std::fabs(rb.get_halfwidth(1) - b.get_halfwidth(1)) + dist(rb.get_center(), b.get_center()) < 1e-10 * (m + 1) * s, "make_obb", "rectangle round trip differs");
            VP_CHECK(c, std::fabs(point_obb_distance_sqrd(p, rb) - (double)w) <= tl, "make_obb-distance", "distance to the rebuilt box differs");
        }
    }
}

template <std::size_t D> static void pp_check(Case& c, I m) {
    geometrix::point<double, D> a, b; I w = 0; for (std::size_t i = 0; i < D; ++i) { I x = c.around(m), y = c.around(m); a[i] = (double)x; b[i] = (double)y; w += (x - y) * (x - y); }
    VP_CHECK(c, point_point_distance_sqrd(a, b) == (double)w, "point_point_distance_sqrd", "dimension " << D << ": " << point_point_distance_sqrd(a, b) << " expected " << w);
    VP_CHECK(c, std::fabs(point_point_distance(a, b) - std::sqrt((double)w)) <= 1e-12 * (1 + std::sqrt((double)w)), "point_point_distance", "dimension " << D);
}
VP_ASPECT(point_point_line, 1200000, 20000000, "lattice points in 2..4 dimensions, lines through two lattice points, distance ordering; non-trivial: point off the line") {
    I m = gx::grid(c); pp_check<2>(c, m); pp_check<3>(c, m); pp_check<4>(c, m);
    V a = gx::pt(c, m), b = gx::pt(c, m), p = gx::pt(c, m); if (a == b) b = a + V(1, 0);
    VP_NOTE(c, "line through " << a << b << " p=" << p);
    I o = gx::orient(a, b, p); if (o) c.nontrivial(); LD len = std::sqrt((LD)gx::dot(b - a, b - a)); LD w = o / len;
    line<P2> ln(P(a), P(b));
    double sd = signed_point_line_distance(P(p), ln);
    VP_CHECK(c, std::fabs(sd - (double)w) < 1e-10 * (m + 1), "signed_point_line_distance", "signed distance " << sd << " expected " << (double)w << " (positive to the left)");
    VP_CHECK(c, std::fabs(point_line_distance(P(p), ln) - std::fabs((double)w)) < 1e-10 * (m + 1), "point_line_distance", "distance");
    distance_compare<P2, direct_comparison_policy> dc(P(p), direct_comparison_policy());
    VP_CHECK(c, dc(P(a), P(b)) == (gx::dot(a - p, a - p) < gx::dot(b - p, b - p)), "distance_compare", "order by distance from p");
}
