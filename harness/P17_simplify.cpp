// P17: removal of collinear and repeated points, Ramer-Douglas-Peucker simplification.
#include "gl.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/point_sequence/remove_collinear_points.hpp>
#include <geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp>
using namespace geometrix; using namespace gl; using vp::Case;
static std::string show(const std::vector<P2>& p) { std::ostringstream o; for (auto& x : p) o << sh(x); return o.str(); }
template <class A> static bool eq(const A& a, const Poly& w, double sc) { if (a.size() != w.size()) return false; for (std::size_t i = 0; i < w.size(); ++i) if (dist(a[i], P(w[i], sc)) != 0) return false; return true; }
template <class A> static bool eq_cyc(const A& a, Poly w, double sc) { for (std::size_t i = 0; i < w.size(); ++i) { if (eq(a, w, sc)) return true; std::rotate(w.begin(), w.begin() + 1, w.end()); } return w.empty() && a.empty(); }
static Poly densify(Case& c, const Poly& p, bool closed, bool dup) { Poly r; std::size_t n = p.size(); for (std::size_t i = 0; i < n; ++i) { int k = dup ? (int)c.draw(6) : 0; for (int q = 0; q < (k > 3 ? k - 2 : 1); ++q) r.push_back(12 * p[i]); if (!closed && i + 1 == n) break; I s = c.pick<I>({1, 1, 2, 3, 4}); for (I t = 1; t < s; ++t) r.push_back((12 / s) * ((s - t) * p[i] + t * p[(i + 1) % n])); } return r; }
VP_ASPECT(clean_polygon, 800000, 12000000, "simple polygon with up to three extra vertices per edge and repeated vertices, any start vertex and winding; non-trivial: something is to be removed") {
    I m = c.pick<I>({3, 2, 5, 8, 20, 100}); Poly k = gx::gen_simple(c, m, 9); for (std::size_t i = 0; i < k.size() && k.size() > 3;) if (gx::side(k[(i + k.size() - 1) % k.size()], k[i], k[(i + 1) % k.size()]) == 0) { k.erase(k.begin() + (long)i); i = 0; } else ++i; if (c.chance(1, 2)) std::reverse(k.begin(), k.end()); bool dup = c.chance(1, 3); Poly g = gx::rotate_start(c, densify(c, k, true, dup)); for (auto& v : k) v = 12 * v; double sc = c.pick<double>({1.0, 0.5, 4.0, 0.015625, 256.0}); VP_NOTE(c, "polygon " << g << " scale " << sc); if (g.size() != k.size()) c.nontrivial(); c.label_if(dup, "repeats"); G2 G = Pg(g, sc);
    G2 r = remove_collinear_points_polygon(G, cmp()); VP_CHECK(c, eq_cyc(r, k, sc), "remove_collinear_points_polygon", "leaves " << show(r) << " expected the corners " << k); r = clean_polygon(G, cmp()); VP_CHECK(c, eq_cyc(r, k, sc), "clean_polygon", "leaves " << show(r) << " expected the corners " << k);
    auto id = identify_collinear_points_polygon(G, cmp()); G2 kept; for (std::size_t i = 0; i < G.size(); ++i) if (!id.count(i)) kept.push_back(G[i]); VP_CHECK(c, eq_cyc(kept, k, sc), "identify_collinear_points_polygon", "without the identified points: " << show(kept) << " expected the corners " << k);
    Poly u; for (auto v : g) if (u.empty() || u.back() != v) u.push_back(v); while (u.size() > 1 && u.back() == u.front()) u.pop_back(); r = coalesce_adjacent_points_polygon(G, cmp()); VP_CHECK(c, eq(r, u, sc), "coalesce_adjacent_points_polygon", "leaves " << show(r) << " expected " << u);
    auto ia = identify_adjacent_points_polygon(G, cmp()); kept.clear(); for (std::size_t i = 0; i < G.size(); ++i) if (!ia.count(i)) kept.push_back(G[i]); VP_CHECK(c, eq(kept, u, sc), "identify_adjacent_points_polygon", "without the identified points: " << show(kept) << " expected " << u);
}
VP_ASPECT(clean_polyline, 800000, 12000000, "polyline that never doubles back, with extra vertices on its edges and repeated vertices; non-trivial: something is to be removed") {
    I m = c.pick<I>({3, 2, 5, 8, 20, 100}); Poly k0 = gx::gen_any_chain(c, m, 8), k; for (auto v : k0) { while (k.size() > 1 && gx::side(k[k.size() - 2], k.back(), v) == 0) k.pop_back(); if (k.empty() || k.back() != v) k.push_back(v); } if (k.size() < 2) k.push_back(k[0] + V(1, 0)); bool dup = c.chance(1, 3); Poly g = densify(c, k, false, dup); for (auto& v : k) v = 12 * v; double sc = c.pick<double>({1.0, 0.5, 4.0, 0.015625, 256.0}); VP_NOTE(c, "polyline " << g << " scale " << sc); if (g.size() != k.size()) c.nontrivial(); L2 L = Pl(g, sc);
    L2 r = remove_collinear_points_polyline(L, cmp()); VP_CHECK(c, eq(r, k, sc), "remove_collinear_points_polyline", "leaves " << show(r) << " expected " << k); r = clean_polyline(L, cmp()); VP_CHECK(c, eq(r, k, sc), "clean_polyline", "leaves " << show(r) << " expected " << k);
    Poly u; for (auto v : g) if (u.empty() || u.back() != v) u.push_back(v); r = coalesce_adjacent_points_polyline(L, cmp()); VP_CHECK(c, eq(r, u, sc), "coalesce_adjacent_points_polyline", "leaves " << show(r) << " expected " << u);
}
static LD dl(V a, V b, V p) { V d = b - a; return fabsl((LD)gx::cross(d, p - a)) / sqrtl((LD)gx::dot(d, d)); }
static void rdp(const Poly& g, std::size_t a, std::size_t b, LD eps, std::vector<std::size_t>& keep, bool& amb) { LD best = 0; std::size_t k = a; int ties = 0; for (std::size_t i = a + 1; i < b; ++i) { LD d = dl(g[a], g[b], g[i]); if (fabsl(d - best) < 1e-9L && d > 1e-9L) ++ties; if (d > best + 1e-9L) { best = d; k = i; ties = 0; } } if (fabsl(best - eps) < 1e-9L) amb = true; if (best > eps) { if (ties) amb = true; rdp(g, a, k, eps, keep, amb); keep.pop_back(); rdp(g, k, b, eps, keep, amb); } else { keep.push_back(a); keep.push_back(b); } }
VP_ASPECT(rdp, 800000, 12000000, "polyline of distinct vertices and a tolerance; non-trivial: some interior vertices kept and some dropped") {
    I m = c.pick<I>({3, 5, 8, 20, 100}); int n = (int)c.range(2, 14); Poly g; for (int i = 0; i < n; ++i) { V v = c.chance(1, 2) || g.empty() ? gx::pt(c, m) : g.back() + V(c.range(1, 3), c.around(1)); if (std::find(g.begin(), g.end(), v) == g.end()) g.push_back(v); } if (g.size() < 2) g.push_back(g[0] + V(1, 0)); double eps = (double)m * (double)c.range(1, 40) / 37.0; VP_NOTE(c, "polyline " << g << " tolerance " << eps); L2 r = ramer_douglas_peucker_algorithm(Pl(g), eps);
    std::vector<std::size_t> at; for (auto& p : r) for (std::size_t i = 0; i < g.size(); ++i) if (dist(p, P(g[i])) == 0) at.push_back(i); VP_CHECK(c, at.size() == r.size() && r.size() >= 2 && at.front() == 0 && at.back() == g.size() - 1, "rdp-ends", "gives " << show(r)); for (std::size_t i = 0; i + 1 < at.size(); ++i) { VP_CHECK(c, at[i] < at[i + 1], "rdp-order", "gives " << show(r)); for (std::size_t j = at[i] + 1; j < at[i + 1]; ++j) VP_CHECK(c, dl(g[at[i]], g[at[i + 1]], g[j]) <= eps + 1e-9L, "rdp-tolerance", "vertex " << j << " dropped at distance " << (double)dl(g[at[i]], g[at[i + 1]], g[j])); }
    if (r.size() > 2 && r.size() < g.size()) c.nontrivial(); bool amb = false; std::vector<std::size_t> keep; rdp(g, 0, g.size() - 1, eps, keep, amb); c.label_if(amb, "ties"); if (!amb) VP_CHECK(c, at == keep, "rdp-minimal", "keeps " << at.size() << " vertices, splitting at the farthest vertex keeps " << keep.size());
}
