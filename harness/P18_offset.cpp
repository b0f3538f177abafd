// P18: polyline offsetting and the side of a polyline a point is on.
#include "gl.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/line_intersection.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/intersection/polyline_polyline_intersection.hpp>
#include <geometrix/algorithm/point_sequence/self_intersection.hpp>
#include <geometrix/algorithm/point_sequence/polyline_offset.hpp>
#include <geometrix/algorithm/point_sequence/point_polyline_orientation.hpp>
using namespace geometrix; using namespace gl; using vp::Case;
static Poly chain(Case& c, I m) { Poly g; int n = c.chance(1, 100) ? (int)c.range(9, 300) : (int)c.range(2, 8); g.push_back(gx::pt(c, m)); for (int i = 1; i < n; ++i) { V v = c.chance(1, 5) && g.size() > 1 ? g.back() + c.range(1, 2) * (g.back() - g[g.size() - 2]) : gx::pt(c, m); if (v == g.back()) continue; if (g.size() > 1 && gx::side(g[g.size() - 2], g.back(), v) == 0 && gx::dot(g.back() - g[g.size() - 2], v - g.back()) < 0) continue; g.push_back(v); } if (g.size() < 2) g.push_back(g[0] + V(1, 0)); return g; }
VP_ASPECT(offset, 2400000, 12000000, "polyline that does not double back, with straight vertices; offset to either side; non-trivial: a straight vertex or a turn of more than 90 degrees") {
    I m = c.pick<I>({3, 2, 5, 8, 20}); Poly g = chain(c, m); bool left = c.chance(1, 2); double off = (double)c.range(1, 40) / 8.0, sc = c.pick<double>({1.0, 0.5, 4.0, 0.015625, 256.0}); VP_NOTE(c, "polyline " << g << " scale " << sc << " offset " << off << (left ? " left" : " right")); std::size_t n = g.size(); for (std::size_t i = 1; i + 1 < n; ++i) if (gx::side(g[i - 1], g[i], g[i + 1]) == 0 || gx::dot(g[i] - g[i - 1], g[i + 1] - g[i]) < 0) c.nontrivial();
    L2 r = polyline_offset(Pl(g, sc), left ? oriented_left : oriented_right, off, cmp()); VP_CHECK(c, r.size() == n, "polyline_offset-size", r.size() << " vertices expected " << n);
    for (std::size_t i = 0; i + 1 < n; ++i) { V d = g[i + 1] - g[i]; LD l = sqrtl((LD)gx::dot(d, d)); auto dev = [&](const P2& p) { LD x = p[0] - g[i].x * (LD)sc, y = p[1] - g[i].y * (LD)sc; return (d.x * y - d.y * x) / l * (left ? 1 : -1) - off; }; auto tl = [&](const P2& p) { return 1e-9L * (m + 10) * (1 + fabsl((LD)p[0]) + fabsl((LD)p[1])); }; VP_CHECK(c, fabsl(dev(r[i])) <= tl(r[i]) && fabsl(dev(r[i + 1])) <= tl(r[i + 1]), "polyline_offset", "edge " << i << " " << sh(r[i]) << sh(r[i + 1]) << " is off its line by " << (double)dev(r[i]) << " and " << (double)dev(r[i + 1])); }
    auto end = [&](const P2& p, std::size_t k, std::size_t e) { V d = g[e + 1] - g[e]; LD l = sqrtl((LD)gx::dot(d, d)); double x = (double)(g[k].x * sc + (left ? -1 : 1) * d.y / l * off), y = (double)(g[k].y * sc + (left ? 1 : -1) * d.x / l * off); return std::hypot(p[0] - x, p[1] - y) <= 1e-9 * (m + 10); }; VP_CHECK(c, end(r.front(), 0, 0) && end(r.back(), n - 1, n - 2), "polyline_offset-ends", "ends " << sh(r.front()) << sh(r.back()) << " are not the ends moved along the normal");
}
VP_ASPECT(side, 3000000, 15000000, "point off a simple polyline; non-trivial: the closest point is a vertex where the polyline turns") {
    I m = c.pick<I>({3, 2, 5, 8, 20, 100}); Poly g = gx::gen_chain(c, m, 8); if (c.chance(1, 2)) std::reverse(g.begin(), g.end()); V p = c.chance(1, 2) ? gx::pt(c, m + 2) : g[(std::size_t)c.draw(g.size())] + gx::pt(c, 2); double sc = c.pick<double>({1.0, 0.5, 4.0, 0.015625, 256.0}); VP_NOTE(c, "polyline " << g << " point " << p << " scale " << sc); std::size_t n = g.size(); Q best(-1); for (std::size_t i = 0; i + 1 < n; ++i) { Q d = gx::d2_pt_seg(p, g[i], g[i + 1]); if (best < Q(0) || d < best) best = d; } auto got = point_polyline_orientation(P(p, sc), Pl(g, sc), cmp());
    if (best == Q(0)) { VP_CHECK(c, got == oriented_collinear, "point_polyline_orientation-on", "point on the polyline is reported at side " << (int)got); return; }
    bool okl = false, okr = false, okc = false; // sides seen from every closest element
    for (std::size_t i = 0; i + 1 < n; ++i) if (gx::d2_pt_seg(p, g[i], g[i + 1]) == best) { V a = g[i], b = g[i + 1], u = b - a; I t = gx::dot(p - a, u), l = gx::dot(u, u); int s = 0;
        auto at = [&](std::size_t k) { if (k == 0 || k + 1 == n) { s = gx::side(a, b, p); return; } V x = g[k - 1], y = g[k], z = g[k + 1]; int o = gx::side(x, y, z); if (o == 0) { s = gx::side(x, y, p); return; } c.nontrivial(); int s1 = gx::side(x, y, p), s2 = gx::side(y, z, p); if (o > 0) s = s1 > 0 && s2 > 0 ? 1 : -1; else s = s1 < 0 && s2 < 0 ? -1 : 1; };
        if (t <= 0) at(i); else if (t >= l) at(i + 1); else s = gx::side(a, b, p); (s > 0 ? okl : s < 0 ? okr : okc) = true; }
    bool ok = (got == oriented_left && okl) || (got == oriented_right && okr) || (got == oriented_collinear && okc); VP_CHECK(c, ok, "point_polyline_orientation", "reports side " << (int)got << " expected" << (okl ? " left" : "") << (okr ? " right" : "") << (okc ? " collinear" : ""));
}
