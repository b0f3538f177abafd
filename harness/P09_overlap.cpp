// P09: separating-axis overlap tests of convex polygons and oriented boxes.
#include "gl.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp>
#include <geometrix/algorithm/intersection/obb_obb_intersection.hpp>
using namespace geometrix; using namespace gl; using vp::Case;
typedef oriented_bounding_box<P2, V2> OB;
//! 1 interiors share a point, 0 only borders touch, -1 disjoint: the origin against the Minkowski difference
static int overlap(const Poly& a, const Poly& b) { Poly d; for (auto p : a) for (auto q : b) d.push_back(p - q); return gx::locate(gx::hull(d), V(0, 0)); }
VP_ASPECT(polygons, 500000, 15000000, "two convex lattice polygons (up to 14 vertices, any start vertex, either winding); non-trivial: overlapping or touching") {
    I m = c.pick<I>({3, 5, 8, 20, 100}); Poly a = gx::rotate_start(c, gx::gen_convex(c, m, 14)), b = gx::rotate_start(c, gx::gen_convex(c, m, 14)); b = gx::translate(b, c.chance(1, 2) ? gx::pt(c, 2 * m) : a[c.draw(a.size())] - b[c.draw(b.size())] + gx::pt(c, 1)); if (c.chance(1, 4)) std::reverse(a.begin(), a.end()); if (c.chance(1, 4)) std::reverse(b.begin(), b.end()); double sc = pick_scale(c, m);
    VP_NOTE(c, "polygons " << a << b << " scale " << sc); int k = overlap(a, b); if (k >= 0) c.nontrivial(); c.label(k > 0 ? "overlap" : k < 0 ? "apart" : "touching"); bool r = convex_polygons_intersection(Pg(a, sc), Pg(b, sc), cmp()), s = convex_polygons_intersection(Pg(b, sc), Pg(a, sc), cmp());
    VP_CHECK(c, r == s, "convex_polygons_intersection-symmetric", "depends on the order: " << r << s); if (k) VP_CHECK(c, r == (k > 0), "convex_polygons_intersection", "reports " << r << " expected " << (k > 0));
    VP_CHECK(c, convex_polygons_intersection(Pg(a, sc), Pg(a, sc), cmp()), "convex_polygons_intersection-self", "a polygon does not meet itself");
}
struct Trip { int a, b, h; };
VP_ASPECT(boxes, 500000, 15000000, "two oriented boxes with rational axes of either handedness; non-trivial: overlapping or touching") {
    I m = c.pick<I>({2, 3, 5, 8}); double sc = c.pick<double>({1.0, 0.5, 0.1, 7.0}); Poly g[2]; V ctr[2]; Trip p[2]; I hu[2], hv[2]; for (int i = 0; i < 2; ++i) p[i] = c.pick<Trip>({{1, 0, 1}, {3, 4, 5}, {0, 1, 1}, {-4, 3, 5}, {5, -12, 13}, {-1, 0, 1}, {-15, -8, 17}}); ctr[0] = gx::pt(c, m); for (int i = 0; i < 2; ++i) { hu[i] = c.range(1, m); hv[i] = c.range(1, m); }
    bool left = c.chance(1, 4); auto corners = [&](int i) { V U(p[i].a, p[i].b), W(-p[i].b, p[i].a); if (left) W = -1 * W; return Poly{ctr[i] - hu[i] * U - hv[i] * W, ctr[i] + hu[i] * U - hv[i] * W, ctr[i] + hu[i] * U + hv[i] * W, ctr[i] - hu[i] * U + hv[i] * W}; };
    g[0] = corners(0); ctr[1] = gx::pt(c, 3 * m * std::max(p[0].h, p[1].h)); if (c.chance(1, 3)) { ctr[1] = V(0, 0); Poly t = corners(1); ctr[1] = g[0][c.draw(4)] - t[c.draw(4)] + gx::pt(c, 1); } g[1] = corners(1);
    VP_NOTE(c, "boxes " << g[0] << g[1] << " scale " << sc); int k = overlap(g[0], g[1]); if (k >= 0) c.nontrivial(); c.label(k > 0 ? "overlap" : k < 0 ? "apart" : "touching");
    auto ob = [&](int i) { double s = left ? -1 : 1; return OB(P(ctr[i], sc), V2((double)p[i].a / p[i].h, (double)p[i].b / p[i].h), V2(-s * p[i].b / p[i].h, s * p[i].a / p[i].h), hu[i] * p[i].h * sc, hv[i] * p[i].h * sc); };
    OB x = ob(0), y = ob(1); bool r = obb_obb_intersection(x, y, cmp()), s = obb_obb_intersection(y, x, cmp()); VP_CHECK(c, r == (k >= 0) && s == (k >= 0), "obb_obb_intersection", "reports " << r << s << " expected " << (k >= 0));
    for (int i = 0; i < 4; ++i) VP_CHECK(c, dist(x[i], P(g[0][i], sc)) < 1e-9 * (20 * m) * sc, "obb-corner", "corner " << i << " is " << sh(x[i]));
    rectangle<P2> rc = x.get_rectangle(); OB z = make_obb<P2, V2>(rc); VP_CHECK(c, dist(z.get_center(), P(ctr[0], sc)) < 1e-8 * m * sc && std::fabs(z.get_halfwidth(0) - hu[0] * p[0].h * sc) < 1e-8 * m * sc && std::fabs(z.get_halfwidth(1) - hv[0] * p[0].h * sc) < 1e-8 * m * sc, "make_obb", "centre " << sh(z.get_center())); for (int i = 0; i < 4; ++i) VP_CHECK(c, dist(z[i], x[i]) < 1e-9 * (20 * m) * sc && dist(rc[i], x[i]) == 0, "make_obb-corner", "corner " << i);
}
