// P23: triangle meshes - orientation, adjacency, point location, sampling and visibility.
#include "gl.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/mesh_2d.hpp>
#include <geometrix/algorithm/visible_vertices_mesh_search.hpp>
#include <map>
#include <set>
using namespace geometrix; using namespace gl; using vp::Case;
typedef std::array<std::size_t, 3> T3; struct Mesh { std::vector<V> p; std::vector<T3> t; };
typedef absolute_tolerance_comparison_policy<double> Cmp; typedef mesh_2d<double> Dense; typedef mesh_2d<double, mesh_traits<triangle_grid_cache<double, sparse_grid_type_generator>>> Sparse;
static I area(const Mesh& m, std::size_t i) { return gx::orient(m.p[m.t[i][0]], m.p[m.t[i][1]], m.p[m.t[i][2]]); }
static bool in_tri(V a, V b, V d, V q) { int x = gx::side(a, b, q), y = gx::side(b, d, q), z = gx::side(d, a, q); return x >= 0 && y >= 0 && z >= 0; }
static bool in_mesh(const Mesh& m, V q, I K = 1) { for (auto& t : m.t) if (in_tri(K * m.p[t[0]], K * m.p[t[1]], K * m.p[t[2]], q)) return true; return false; }
static Mesh ears(Case& c, Poly g) { Mesh m; m.p.assign(g.begin(), g.end()); std::vector<std::size_t> id(g.size()); for (std::size_t i = 0; i < id.size(); ++i) id[i] = i; while (id.size() > 3) { std::size_t n = id.size(), s = (std::size_t)c.draw(n); bool cut = false; for (std::size_t k = 0; k < n && !cut; ++k) { std::size_t i = (s + k) % n, a = id[(i + n - 1) % n], b = id[i], d = id[(i + 1) % n]; if (gx::side(m.p[a], m.p[b], m.p[d]) <= 0) continue; bool ok = true; for (auto q : id) if (q != a && q != b && q != d && in_tri(m.p[a], m.p[b], m.p[d], m.p[q])) ok = false; if (!ok) continue; m.t.push_back(T3{{a, b, d}}); id.erase(id.begin() + (std::ptrdiff_t)i); cut = true; } if (!cut) { m.t.clear(); return m; } } if (gx::side(m.p[id[0]], m.p[id[1]], m.p[id[2]]) <= 0) { m.t.clear(); return m; } m.t.push_back(T3{{id[0], id[1], id[2]}}); return m; }
// split some triangles at interior lattice points
static void split(Case& c, Mesh& m, I r) { int n = (int)c.range(0, 4); for (int k = 0; k < n; ++k) { V q(c.around(r), c.around(r)); for (std::size_t i = 0; i < m.t.size(); ++i) { T3 t = m.t[i]; V a = m.p[t[0]], b = m.p[t[1]], d = m.p[t[2]]; if (gx::side(a, b, q) > 0 && gx::side(b, d, q) > 0 && gx::side(d, a, q) > 0) { std::size_t w = m.p.size(); m.p.push_back(q); m.t[i] = T3{{t[0], t[1], w}}; m.t.push_back(T3{{t[1], t[2], w}}); m.t.push_back(T3{{t[2], t[0], w}}); break; } } } }
// cells of a lattice cut by a diagonal each, some missing
static Mesh cells(Case& c) { I w = c.range(1, 5), h = c.range(1, 5); if (c.chance(1, 400)) { w = c.range(6, 14); h = c.range(6, 14); } Mesh m; std::map<V, std::size_t> id; auto at = [&](I x, I y) { V v(2 * x - w, 2 * y - h); auto it = id.find(v); if (it != id.end()) return it->second; id[v] = m.p.size(); m.p.push_back(v); return m.p.size() - 1; }; for (I x = 0; x < w; ++x) for (I y = 0; y < h; ++y) { if (c.chance(1, 5)) continue; std::size_t a = at(x, y), b = at(x + 1, y), d = at(x + 1, y + 1), e = at(x, y + 1); if (c.chance(1, 2)) { m.t.push_back(T3{{a, b, d}}); m.t.push_back(T3{{a, d, e}}); } else { m.t.push_back(T3{{a, b, e}}); m.t.push_back(T3{{b, d, e}}); } } return m; }
static Mesh gen(Case& c) { Mesh m; if (c.chance(1, 3)) m = cells(c); else { I r = c.chance(1, 400) ? 30 : c.pick<I>({4, 8, 3, 12}); Poly g = gx::make_ccw(r == 30 ? gx::gen_monotone(c, r) : gx::gen_simple(c, r, 12)); if (c.chance(1, 4)) g = gx::with_collinear(c, g); m = ears(c, g); split(c, m, r); } for (auto& v : m.p) v = 2 * v; return m; }
static std::string show(const Mesh& m) { std::ostringstream o; o << Poly(m.p.begin(), m.p.end()); for (auto& t : m.t) o << t[0] << "/" << t[1] << "/" << t[2] << " "; return o.str(); }
static std::vector<P2> pts(const Mesh& m, double s) { std::vector<P2> r; for (auto v : m.p) r.push_back(P(v, s)); return r; }
static std::vector<std::size_t> flat(Case& c, const Mesh& m, bool& turned) { std::vector<std::size_t> r; turned = false; for (auto t : m.t) { int k = (int)c.draw(3); T3 u{{t[k], t[(k + 1) % 3], t[(k + 2) % 3]}}; if (c.chance(1, 3)) { std::swap(u[1], u[2]); turned = true; } r.insert(r.end(), u.begin(), u.end()); } return r; }
static T3 rot(T3 t) { std::size_t k = (std::size_t)(std::min_element(t.begin(), t.end()) - t.begin()); return T3{{t[k], t[(k + 1) % 3], t[(k + 2) % 3]}}; }
VP_ASPECT(structure, 40000, 2500000, "triangulated lattice polygons and cell regions, triangles listed in any rotation and direction, repeated-point triangles mixed in; non-trivial: a triangle was listed clockwise and a degenerate one dropped") {
    Mesh m = gen(c); if (m.t.empty()) { c.discard(); return; } bool turned; auto f = flat(c, m, turned); VP_NOTE(c, "mesh " << show(m)); std::vector<std::size_t> in; bool deg = false; for (std::size_t i = 0; i < m.t.size(); ++i) { if (c.chance(1, 6)) { deg = true; std::size_t a = f[3 * i], b = f[3 * i + 1]; int k = (int)c.draw(3); in.push_back(a); in.push_back(k == 0 ? a : b); in.push_back(k == 1 ? a : b); } in.insert(in.end(), f.begin() + (std::ptrdiff_t)(3 * i), f.begin() + (std::ptrdiff_t)(3 * i + 3)); } if (turned && deg) c.nontrivial(); double s = c.pick<double>({0.5, 1, 0.1}); Dense g(pts(m, s), in, cmp());
    VP_CHECK(c, g.get_number_triangles() == m.t.size() && g.get_number_vertices() == m.p.size(), "mesh-count", g.get_number_triangles() << " triangles, expected " << m.t.size()); std::map<std::pair<std::size_t, std::size_t>, std::size_t> side; for (std::size_t i = 0; i < m.t.size(); ++i) { T3 t = g.get_triangle_indices(i); VP_CHECK(c, rot(t) == rot(m.t[i]), "mesh-orientation", "triangle " << i << " is " << t[0] << "/" << t[1] << "/" << t[2]); for (int k = 0; k < 3; ++k) { P2 a = g.get_triangle_vertices(i)[(std::size_t)k], b = P(m.p[t[(std::size_t)k]], s); VP_CHECK(c, a[0] == b[0] && a[1] == b[1], "mesh-vertices", "triangle " << i << " corner " << k << " is at " << sh(a)); side[{t[(std::size_t)k], t[(std::size_t)(k + 1) % 3]}] = i; } }
    auto& adj = g.get_adjacency_matrix(); VP_CHECK(c, adj.size() == m.t.size(), "mesh-adjacency", "size"); for (std::size_t i = 0; i < m.t.size(); ++i) { T3 t = g.get_triangle_indices(i); for (std::size_t k = 0; k < 3; ++k) { auto it = side.find({t[(k + 1) % 3], t[k]}); std::size_t w = it == side.end() ? static_cast<std::size_t>(-1) : it->second; VP_CHECK(c, adj[i][k] == w, "mesh-adjacency", "side " << k << " of triangle " << i << " borders " << (long)adj[i][k] << ", expected " << (long)w); if (w != static_cast<std::size_t>(-1)) { std::size_t sd = get_triangle_adjacent_side(t, g.get_triangle_indices(w)); VP_CHECK(c, sd == k, "mesh-side", "adjacent side of " << i << " to " << w << " is " << sd << " expected " << k); } } }
}
template <typename M> static void find(Case& c, const Mesh& m, const M& g, double s, const std::vector<V>& qs, const char* who) { for (V q : qs) { bool w = in_mesh(m, q); auto r = g.find_triangle(P(q, s), cmp()); VP_CHECK(c, !!r == w, "find_triangle", who << " point " << q << (w ? " is in the mesh" : " is outside") << " but " << (r ? "found" : "not found")); if (r) { VP_CHECK(c, *r < m.t.size(), "find_triangle", who << " index"); auto& t = m.t[*r]; VP_CHECK(c, in_tri(m.p[t[0]], m.p[t[1]], m.p[t[2]], q), "find_triangle", who << " point " << q << " is not in triangle " << *r); } int n = 0; for (auto& t : m.t) n += in_tri(m.p[t[0]], m.p[t[1]], m.p[t[2]], q); if (n > 1) c.nontrivial(); } }
VP_ASPECT(locate, 15000, 1500000, "vertices, edge points, interior and outside points of meshes of any size against the unit cells of the cache, dense and sparse; non-trivial: the point is on a shared edge or vertex") {
    Mesh m = gen(c); if (m.t.empty()) { c.discard(); return; } bool tr; auto f = flat(c, m, tr); double s = c.pick<double>({0.5, 1, 0.1, 2, 0.01}); VP_NOTE(c, "mesh " << show(m) << " scale " << s); std::vector<V> qs; for (int k = 0; k < 8; ++k) { auto& t = m.t[(std::size_t)c.draw(m.t.size())]; V a = m.p[t[0]], b = m.p[t[1]], d = m.p[t[2]]; switch (c.draw(5)) { case 0: qs.push_back(a); break; case 1: qs.push_back(V((a.x + b.x) / 2, (a.y + b.y) / 2)); break; case 2: qs.push_back(V((a.x + b.x + d.x) / 3, (a.y + b.y + d.y) / 3)); break; case 3: qs.push_back(b + (d - a)); break; default: qs.push_back(V(c.around(20), c.around(20))); } } VP_NOTE(c, " points " << Poly(qs.begin(), qs.end())); find(c, m, Dense(pts(m, s), f, cmp()), s, qs, "dense"); find(c, m, Sparse(pts(m, s), f, cmp()), s, qs, "sparse");
}
VP_ASPECT(sample, 40000, 2000000, "random numbers anywhere in [0, 1] including both ends; non-trivial: the mesh has triangles of different area") {
    Mesh m = gen(c); if (m.t.empty()) { c.discard(); return; } bool tr; auto f = flat(c, m, tr); double s = c.pick<double>({0.5, 1, 0.1, 1.0 / 3}); Dense g(pts(m, s), f, cmp()); LD tot = 0; for (std::size_t i = 0; i < m.t.size(); ++i) { tot += (LD)area(m, i); if (area(m, i) != area(m, 0)) c.nontrivial(); }
    for (int k = 0; k < 6; ++k) { auto u = [&] { return c.chance(1, 4) ? c.pick<double>({0, 1, 0.5, 0x1p-53, 1 - 0x1p-53}) : c.real(0, 1); }; double rt = u(), r1 = u(), r2 = u(); VP_NOTE(c, (k ? "" : "mesh " + show(m)) << " (" << rt << "," << r1 << "," << r2 << ")"); P2 p = g.get_random_position(rt, r1, r2); LD acc = 0; std::size_t n = m.t.size(); bool near = false; for (std::size_t i = 0; i < m.t.size(); ++i) { acc += (LD)area(m, i); if (std::fabs((double)(acc / tot - (LD)rt)) < 1e-12) near = true; if (n == m.t.size() && acc / tot >= (LD)rt) n = i; } bool ok = false; double tol = 1e-9 * (1 + 40 * s);
        for (std::size_t i = 0; i < m.t.size(); ++i) { if (!near && i != n) continue; auto t = g.get_triangle_indices(i); double q = std::sqrt(r1), w[3] = {1 - q, q * (1 - r2), q * r2}, x = 0, y = 0; for (std::size_t j = 0; j < 3; ++j) { x += w[j] * (double)m.p[t[j]].x * s; y += w[j] * (double)m.p[t[j]].y * s; } if (std::fabs(x - p[0]) < tol && std::fabs(y - p[1]) < tol) ok = true; } VP_CHECK(c, ok, "get_random_position", "(" << rt << "," << r1 << "," << r2 << ") gives " << sh(p) << ", expected a point of triangle " << n << " of " << m.t.size()); }
}
static bool in_mesh_at(const Mesh& m, V o, V u, Q t) { gx::W K = t.d, X = K * o.x + t.n * u.x, Y = K * o.y + t.n * u.y; auto sd = [&](V a, V b) { return gx::sgnw((gx::W)(b.x - a.x) * (Y - K * a.y) - (gx::W)(b.y - a.y) * (X - K * a.x)); }; for (auto& z : m.t) if (sd(m.p[z[0]], m.p[z[1]]) >= 0 && sd(m.p[z[1]], m.p[z[2]]) >= 0 && sd(m.p[z[2]], m.p[z[0]]) >= 0) return true; return false; }
// is b seen from a: 1 clearly, -1 not at all, 0 along edges or past vertices; everything scaled by K
static int sees(const Mesh& m, V a, V b) { if (a == b) return 1; V u = b - a; bool touch = false; std::vector<Q> ts{Q(0), Q(1)}; for (auto& v : m.p) if (v != a && v != b && gx::on_seg(a, b, v)) touch = true; for (auto& t : m.t) for (int k = 0; k < 3; ++k) { V p = m.p[t[(std::size_t)k]], q = m.p[t[(std::size_t)(k + 1) % 3]]; I den = gx::cross(u, q - p); if (den) { Q x(gx::cross(p - a, q - p), den); if (Q(0) < x && x < Q(1)) ts.push_back(x); } } std::sort(ts.begin(), ts.end()); ts.erase(std::unique(ts.begin(), ts.end()), ts.end()); for (std::size_t i = 0; i + 1 < ts.size(); ++i) { Q mid = (ts[i] + ts[i + 1]) * Q(1, 2); if (!in_mesh_at(m, a, u, mid)) return -1; } return touch ? 0 : 1; }
VP_ASPECT(visible, 10000, 400000, "meshes with and without interior vertices and holes, seen from inside a triangle; non-trivial: some vertices are hidden") {
    Mesh m = gen(c); if (m.t.empty()) { c.discard(); return; } for (auto& v : m.p) v = 3 * v; bool tr; auto f = flat(c, m, tr); double s = c.pick<double>({1, 0.5, 0.25}); auto& t = m.t[(std::size_t)c.draw(m.t.size())]; V a = m.p[t[0]], b = m.p[t[1]], d = m.p[t[2]], o; switch (c.draw(3)) { case 0: o = V((a.x + b.x + d.x) / 3, (a.y + b.y + d.y) / 3); break; case 1: { I lx = std::min({a.x, b.x, d.x}), hx = std::max({a.x, b.x, d.x}), ly = std::min({a.y, b.y, d.y}), hy = std::max({a.y, b.y, d.y}); o = V(c.range(lx, hx), c.range(ly, hy)); break; } default: o = V((a.x + b.x) / 2, (a.y + b.y) / 2) + V((d.x - a.x) / 6, (d.y - a.y) / 6); } VP_NOTE(c, "mesh " << show(m) << " origin " << o); Dense g(pts(m, s), f, cmp()); std::size_t start = m.t.size(); for (std::size_t i = 0; i < m.t.size(); ++i) { auto& z = m.t[i]; if (in_tri(m.p[z[0]], m.p[z[1]], m.p[z[2]], o)) start = i; } for (auto& v : m.p) if (v == o) start = m.t.size(); if (start == m.t.size()) { c.discard(); return; } c.label_if(m.p.size() > 3 && !std::any_of(m.t.begin(), m.t.end(), [&](const T3& z) { return gx::side(m.p[z[0]], m.p[z[1]], o) > 0 && gx::side(m.p[z[1]], m.p[z[2]], o) > 0 && gx::side(m.p[z[2]], m.p[z[0]], o) > 0; }), "on an edge");
    visible_vertices_mesh_search<visible_vertices_mesh_search_traits<double, Dense, Cmp>> vs(P(o, s), start, g); g.search(vs); std::set<std::size_t> got(vs.get_vertices().begin(), vs.get_vertices().end()); for (std::size_t i = 0; i < m.p.size(); ++i) { bool used = false; for (auto& z : m.t) used = used || z[0] == i || z[1] == i || z[2] == i; if (!used) continue; int w = sees(m, o, m.p[i]); if (w < 0) c.nontrivial(); if (w > 0) VP_CHECK(c, std::count(vs.get_vertices().begin(), vs.get_vertices().end(), i) <= 1, "visible-twice", "vertex " << m.p[i] << " in plain sight of " << o << " is listed more than once"); if (w > 0) VP_CHECK(c, got.count(i), "visible-missed", "vertex " << m.p[i] << " is in plain sight of " << o << " but is not found"); if (w < 0) VP_CHECK(c, !got.count(i), "visible-extra", "vertex " << m.p[i] << " is hidden from " << o << " but is found"); }
}
