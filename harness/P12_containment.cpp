// P12: point containment in polygons, convex polygons, quadrilaterals and triangles.
#include "gl.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
using namespace geometrix; using namespace gl; using vp::Case;
VP_ASPECT(simple_polygon, 800000, 25000000, "lattice probe (vertex, edge point, vertex height, random) against a simple polygon of either winding, with collinear vertices; non-trivial: probe on the border or at a vertex height") {
    I m = gx::grid(c); Poly g = gx::rotate_start(c, gx::gen_simple(c, m, 12)); if (c.chance(1, 3)) g = gx::with_collinear(c, g); if (c.chance(1, 2)) std::reverse(g.begin(), g.end()); V p = gx::probe(c, g, m); double sc = m <= 20 ? c.pick<double>({1.0, 0.5, 0.1, 4.0}) : c.pick<double>({1.0, 0.5, 4.0, 0.015625, 256.0}); VP_NOTE(c, "polygon " << g << " point " << p << " scale " << sc);
    int w = gx::locate(g, p); bool vx = false, hy = false; for (auto v : g) { vx = vx || v == p; hy = hy || v.y == p.y; } if (w == 0 || hy) c.nontrivial(); c.label(vx ? "vertex" : w == 0 ? "border" : w > 0 ? "inside" : "outside");
    G2 G = Pg(g, sc); P2 q = P(p, sc); bool in = point_in_polygon(q, G); if (w) VP_CHECK(c, in == (w > 0), "point_in_polygon", "reports " << in << " for a point " << (w > 0 ? "inside" : "outside"));
    if (sc != 0.1) { bool par = false; for (std::size_t i = 1; i + 1 < g.size(); ++i) par = par != point_in_polygon(q, Pg(Poly{g[0], g[i], g[i + 1]}, sc)); VP_CHECK(c, par == in, "point_in_polygon-partition", "cut along diagonals the parity is " << par << " but the whole polygon reports " << in); Poly r = g; std::reverse(r.begin(), r.end()); VP_CHECK(c, point_in_polygon(q, Pg(r, sc)) == in, "point_in_polygon-reversed", "depends on the winding"); }
    auto k = point_polygon_containment_or_on_border(q, G, cmp()); auto want = vx ? polygon_containment::vertex : w == 0 ? polygon_containment::border : w > 0 ? polygon_containment::interior : polygon_containment::exterior; VP_CHECK(c, k == want, "point_polygon_containment_or_on_border", "reports " << (int)k << " expected " << (int)want);
}
VP_ASPECT(convex_polygon, 500000, 15000000, "lattice probe against a strictly convex ccw polygon or quadrilateral from any start vertex; non-trivial: probe on the border or in line with an edge") {
    I m = gx::grid(c); Poly g = gx::rotate_start(c, gx::gen_convex(c, m, 14)); V p = gx::probe(c, g, m); double sc = c.pick<double>({1.0, 0.5, 4.0, 0.015625, 256.0}); VP_NOTE(c, "polygon " << g << " point " << p << " scale " << sc); int w = gx::locate(g, p); bool line = false; for (std::size_t i = 0; i < g.size(); ++i) line = line || gx::side(g[i], g[(i + 1) % g.size()], p) == 0; if (line) c.nontrivial();
    VP_CHECK(c, point_in_convex_polygon(P(p, sc), Pg(g, sc), cmp()) == (w >= 0), "point_in_convex_polygon", "expected " << (w >= 0)); if (g.size() == 4) { c.label("quadrilateral"); VP_CHECK(c, point_in_convex_quadrilateral(P(p, sc), Pg(g, sc), cmp()) == (w >= 0), "point_in_convex_quadrilateral", "expected " << (w >= 0)); }
}
VP_ASPECT(triangle, 500000, 15000000, "point against a ccw triangle in the plane and, lifted to a plane in space, a triangle of either winding; non-trivial: probe in line with an edge") {
    I m = c.pick<I>({3, 2, 5, 8, 20}); V t[3]; for (auto& v : t) v = gx::pt(c, m); if (gx::orient(t[0], t[1], t[2]) == 0) t[2] = t[0] + V(-(t[1] - t[0]).y, (t[1] - t[0]).x) + V(t[0] == t[1], 0); if (t[0] == t[1]) t[1] = t[0] + V(1, 0); if (gx::orient(t[0], t[1], t[2]) == 0) c.discard(); if (gx::orient(t[0], t[1], t[2]) < 0) std::swap(t[1], t[2]); Poly g{t[0], t[1], t[2]}; V p = gx::probe(c, g, m); double sc = c.pick<double>({1.0, 0.5, 4.0, 0.015625, 256.0}); VP_NOTE(c, "triangle " << g << " point " << p << " scale " << sc);
    int w = gx::locate(g, p); for (int i = 0; i < 3; ++i) if (gx::side(g[i], g[(i + 1) % 3], p) == 0) c.nontrivial(); VP_CHECK(c, point_in_triangle(P(p, sc), P(t[0], sc), P(t[1], sc), P(t[2], sc), cmp()) == (w >= 0), "point_in_triangle-2d", "expected " << (w >= 0));
    I u[3], v[3], o[3]; for (int k = 0; k < 3; ++k) { u[k] = c.around(3); v[k] = c.around(3); o[k] = c.around(m); } if (u[0] * v[1] == u[1] * v[0] && u[1] * v[2] == u[2] * v[1] && u[0] * v[2] == u[2] * v[0]) { u[0] = 1; u[1] = 0; u[2] = 2; v[0] = 0; v[1] = 1; v[2] = -1; } auto L = [&](V a) { return P3((o[0] + a.x * u[0] + a.y * v[0]) * sc, (o[1] + a.x * u[1] + a.y * v[1]) * sc, (o[2] + a.x * u[2] + a.y * v[2]) * sc); }; bool f = c.chance(1, 2);
    VP_CHECK(c, point_in_triangle(L(p), L(t[0]), L(t[f ? 2 : 1]), L(t[f ? 1 : 2]), cmp()) == (w >= 0), "point_in_triangle-3d", "expected " << (w >= 0) << " in the plane spanned by (" << u[0] << "," << u[1] << "," << u[2] << ") (" << v[0] << "," << v[1] << "," << v[2] << ")");
}
