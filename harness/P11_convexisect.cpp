// P11: intersection of two convex polygons (O'Rourke).
#include "gl.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp>
using namespace geometrix; using namespace gl; using vp::Case;
struct R { Q x, y; };
static Q crs(const R& a, const R& b, const R& p) { return (b.x - a.x) * (p.y - a.y) - (b.y - a.y) * (p.x - a.x); }
static Q sideq(V a, V b, const R& p) { return Q(b.x - a.x) * (p.y - Q(a.y)) - Q(b.y - a.y) * (p.x - Q(a.x)); }
//! Sutherland-Hodgman with rationals; every vertex is an input vertex or the crossing of two input edges
static std::vector<R> clip(const Poly& a, const Poly& b) { std::vector<R> r; // intersection = hull of (a vertices in b, b vertices in a, edge crossings)
    for (auto v : a) if (gx::locate(b, v) >= 0) r.push_back({Q(v.x), Q(v.y)}); for (auto v : b) if (gx::locate(a, v) >= 0) r.push_back({Q(v.x), Q(v.y)});
    for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; j < b.size(); ++j) { V p = a[i], q = a[(i + 1) % a.size()], u = b[j], v = b[(j + 1) % b.size()]; if (gx::proper_cross(p, q, u, v)) { Q t(gx::cross(u - p, v - u), gx::cross(q - p, v - u)); r.push_back({Q(p.x) + t * Q(q.x - p.x), Q(p.y) + t * Q(q.y - p.y)}); } }
    return r; }
VP_ASPECT(intersect, 500000, 15000000, "two ccw convex lattice polygons (3-10 vertices, any start vertex); non-trivial: interiors overlap and neither contains the other") {
    I m = c.pick<I>({3, 5, 8, 20}); Poly a = gx::rotate_start(c, gx::gen_convex(c, m, 10)), b = gx::rotate_start(c, gx::gen_convex(c, m, 10)); if (c.chance(1, 8)) for (V& v : a) v = 3 * v; else if (c.chance(1, 8)) for (V& v : b) v = 4 * v; b = gx::translate(b, c.chance(1, 2) ? gx::pt(c, m) : V(0, 0)); double sc = c.pick<double>({1.0, 0.5, 4.0, 0.015625, 256.0}); VP_NOTE(c, "polygons " << a << b << " scale " << sc);
    std::vector<R> want = clip(a, b); Poly d; for (auto p : a) for (auto q : b) d.push_back(p - q); int k = gx::locate(gx::hull(d), V(0, 0)); bool gp = true; for (auto v : a) if (gx::on_border(b, v)) gp = false; for (auto v : b) if (gx::on_border(a, v)) gp = false;
    c.label(k > 0 ? gp ? "overlap, general position" : "overlap, vertex on border" : k == 0 ? "touching" : "disjoint"); bool ain = true, bin = true; for (auto v : a) ain = ain && gx::locate(b, v) >= 0; for (auto v : b) bin = bin && gx::locate(a, v) >= 0; if (k > 0 && !ain && !bin) c.nontrivial();
    std::vector<P2> got; auto r = convex_polygon_polygon_intersection(Pg(a, sc), Pg(b, sc), [&](const P2& p) { got.push_back(p); }, cmp()); double tl = 1e-8 * (m + 2) * sc;
    if (k < 0) VP_CHECK(c, r == polygon_intersection_type::none && got.empty(), "disjoint", "type " << (int)r << " with " << got.size() << " points"); if (k > 0) VP_CHECK(c, r == polygon_intersection_type::overlapping, "overlap", "type " << (int)r << " for overlapping interiors");
    if (k == 0) { std::vector<R> u; for (auto& w : want) { bool dup = false; for (auto& x : u) dup = dup || (x.x == w.x && x.y == w.y); if (!dup) u.push_back(w); } bool face = u.size() > 1; c.label(face ? "touch along a face" : "touch in a point");
        for (auto& p : got) { bool ok = false; for (auto& w : u) ok = ok || std::hypot(p[0] - w.x.dbl() * sc, p[1] - w.y.dbl() * sc) <= tl; VP_CHECK(c, ok, "touch-extra-point", "visited " << sh(p)); }
        if (face) { VP_CHECK(c, r == polygon_intersection_type::face, "face", "type " << (int)r << " for polygons sharing part of an edge"); for (auto& w : u) { bool ok = false; for (auto& p : got) ok = ok || std::hypot(p[0] - w.x.dbl() * sc, p[1] - w.y.dbl() * sc) <= tl; VP_CHECK(c, ok, "face-point", "end of the shared part not visited"); } }
        else VP_CHECK(c, r != polygon_intersection_type::none && !got.empty(), "touch", "type " << (int)r << " with " << got.size() << " points for polygons touching in a point"); return; }
    for (auto& p : got) { bool ok = false; for (auto& w : want) ok = ok || std::hypot(p[0] - w.x.dbl() * sc, p[1] - w.y.dbl() * sc) <= tl; VP_CHECK(c, ok, "extra-point", "visited " << sh(p) << " which is no vertex of the intersection"); }
    for (auto& w : want) { bool corner = false; for (auto& u : want) for (auto& v : want) { } (void)corner; bool ok = false; for (auto& p : got) ok = ok || std::hypot(p[0] - w.x.dbl() * sc, p[1] - w.y.dbl() * sc) <= tl; // vertices on a straight border of the result may be skipped
        if (!ok) { bool extreme = true; for (auto& u : want) for (auto& v : want) { if (u.x == w.x && u.y == w.y) continue; if (v.x == w.x && v.y == w.y) continue; Q cr = crs(u, v, w); if (cr == Q(0) && (u.x - w.x) * (v.x - w.x) + (u.y - w.y) * (v.y - w.y) <= Q(0)) extreme = false; } VP_CHECK(c, !extreme, "missing-point", "vertex " << w.x << "," << w.y << " of the intersection was not visited"); } }
}
