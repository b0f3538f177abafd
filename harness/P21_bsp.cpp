// P21: node-storing and solid-leaf BSP trees of polygonal regions against exact point location, brute-force distance and ray casting.
// FALLBACK: -DVP_NO_DETAIL
#include "gl.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/node_bsp_tree_2d.hpp>
#include <geometrix/algorithm/solid_leaf_bsp_tree.hpp>
#include <geometrix/algorithm/hyperplane_partition_policies.hpp>
using namespace geometrix; using namespace gl; using vp::Case;
typedef std::vector<Poly> Region; typedef std::vector<S2> Segs;
static bool disjoint(const Poly& a, const Poly& b) { for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; j < b.size(); ++j) if (gx::seg_seg(a[i], a[(i + 1) % a.size()], b[j], b[(j + 1) % b.size()])) return false; return true; }
static int where(const Region& r, V q) { bool in = false; for (auto& p : r) { int l = gx::locate(p, q); if (l == 0) return 0; if (l > 0) in = !in; } return in ? 1 : -1; } // 1 inside, 0 on the border, -1 outside
static Region region(Case& c, I m, bool many) { Region r; int n = many ? (int)c.range(1, 4) : 1; for (int k = 0; k < n; ++k) { I s = k == 0 ? m : c.range(1, m); Poly g = k == 0 && s > 20 ? gx::gen_monotone(c, s) : gx::gen_simple(c, s, k == 0 ? 10 : 6); if (c.chance(1, 4)) g = gx::with_collinear(c, g); if (k) { V at(c.around(m), c.around(m)); if (c.chance(1, 4)) at = V(c.pick<I>({3, -3}) * m, c.around(m)); g = gx::translate(g, at); } bool ok = true; for (auto& q : r) ok = ok && disjoint(q, g); if (ok) r.push_back(g); }
    for (std::size_t i = 0; i < r.size(); ++i) { int depth = 0; for (std::size_t j = 0; j < r.size(); ++j) if (j != i && gx::locate(r[j], r[i][0]) > 0) ++depth; r[i] = gx::make_ccw(r[i]); if (depth % 2) std::reverse(r[i].begin(), r[i].end()); r[i] = gx::rotate_start(c, r[i]); } return r; }
static std::string show(const Region& r) { std::ostringstream o; for (auto& p : r) o << p; return o.str(); }
struct E { V a, b; }; static std::vector<E> edges(const Region& r) { std::vector<E> e; for (auto& p : r) for (std::size_t i = 0; i < p.size(); ++i) e.push_back(E{p[i], p[(i + 1) % p.size()]}); return e; }
static Segs segs(const std::vector<E>& e, double s) { Segs r; for (auto& x : e) r.push_back(Seg(x.a, x.b, s)); return r; }
static V query(Case& c, const Region& r, I m) { switch (c.draw(4)) { case 0: { auto e = edges(r); auto x = e[(std::size_t)c.draw(e.size())]; I k = c.pick<I>({0, 1, 2, -1, 3}); return x.a + k * (x.b - x.a); } case 1: return V(c.around(2 * m), c.around(2 * m)); default: return gx::probe(c, r[(std::size_t)c.draw(r.size())], m); } }
struct Half { Region r; V q; }; // double everything so that midpoints are lattice points
static Region twice(const Region& r) { Region t = r; for (auto& p : t) for (auto& v : p) v = 2 * v; return t; }
static double tree_scale(Case& c) { return c.pick<double>({1, 0.5, 4, 0.015625}); }
typedef absolute_tolerance_comparison_policy<double> Cmp; typedef node_bsp_tree_2d<S2> Node; typedef solid_leaf_bsp_tree<S2> Solid; typedef point_location_classification L; typedef point_in_solid_classification SC;
static const char* nm(int w) { return w > 0 ? "inside" : w < 0 ? "outside" : "boundary"; }
template <typename F> static void with_node(Case& c, const Segs& s, F f) { typedef partition_policies::scored_segment_selector_policy<S2, Cmp> Sc; switch (c.draw(4)) { case 1: { Node t(s, Sc(cmp()), cmp()); f(t); break; } case 2: { random_integer_generator<> g((unsigned long)c.draw(1000)); Node t(s, partition_policies::random_segment_selector_policy<S2>(g), cmp()); f(t); break; } default: { Node t(s, partition_policies::first_segment_selector_policy<S2>(), cmp()); f(t); } } }
VP_ASPECT(locate, 120000, 4000000, "polygons, with holes and islands, edges in any order, inserted at once or ring by ring; queries at vertices, on edges and on their extensions; non-trivial: query on an edge or on the line of one") {
    I m = c.chance(1, 80) ? 24 : c.pick<I>({3, 5, 8}); Region r = twice(region(c, m, c.chance(1, 2))); bool flip = c.chance(1, 4); if (flip) for (auto& p : r) std::reverse(p.begin(), p.end()); auto e = edges(r); double sc = tree_scale(c); bool step = r.size() > 1 && c.chance(1, 3); if (!step) for (std::size_t i = e.size(); i > 1; --i) if (c.chance(1, 3)) std::swap(e[i - 1], e[(std::size_t)c.draw(i)]); VP_NOTE(c, "rings " << show(r) << " scale " << sc << (step ? " ring by ring" : "")); std::vector<V> qs; for (int k = 0; k < 6; ++k) qs.push_back(query(c, r, 2 * m));
    auto look = [&](const Node& t) { for (V q : qs) { int w = where(r, q); if (flip) w = -w; for (auto& x : e) if (gx::side(x.a, x.b, q) == 0) c.nontrivial(); L l = t.locate_point(P(q, sc), cmp()); int g = l == e_inside ? 1 : l == e_outside ? -1 : 0; VP_CHECK(c, g == w, "locate_point", "point " << q << " located " << nm(g) << ", expected " << nm(w)); } };
    if (step) { Region one(1, r[0]); Segs s = segs(edges(one), sc); partition_policies::first_segment_selector_policy<S2> sel; Node t(s, sel, cmp()); for (std::size_t k = 1; k < r.size(); ++k) t.insert(segs(edges(Region(1, r[k])), sc), sel, cmp()); look(t); } else with_node(c, segs(e, sc), look);
}
static double hit(P2 o, double dx, double dy, const S2& s) { double ux = s.get_end()[0] - s.get_start()[0], uy = s.get_end()[1] - s.get_start()[1], den = dx * uy - dy * ux; if (std::fabs(den) < 1e-9) return -1; double wx = s.get_start()[0] - o[0], wy = s.get_start()[1] - o[1], t = (wx * uy - wy * ux) / den, k = (wx * dy - wy * dx) / den; return k < 1e-7 || k > 1 - 1e-7 ? -1 : t; }
VP_ASPECT(painter, 60000, 2000000, "regions seen from lattice points; non-trivial: an edge was split or hidden by another one") {
    I m = c.chance(1, 80) ? 24 : c.pick<I>({3, 5, 8}); Region r = region(c, m, c.chance(1, 2)); auto e = edges(r); V o = query(c, r, m); VP_NOTE(c, "rings " << show(r) << " eye " << o); Segs s = segs(e, 1), seen; with_node(c, s, [&](const Node& t) { t.painters_traversal(P(o), [&](const S2& x) { seen.push_back(x); }, cmp()); }); if (seen.size() > e.size()) c.nontrivial(); std::vector<double> cover(e.size(), 0);
    for (auto& x : seen) { bool found = false; for (std::size_t i = 0; i < e.size(); ++i) if (pd(x.get_start(), e[i].a, e[i].b) < 1e-9 && pd(x.get_end(), e[i].a, e[i].b) < 1e-9) { found = true; cover[i] += dist(x.get_start(), x.get_end()); } VP_CHECK(c, found, "painter-fragment", "visits " << sh(x.get_start()) << sh(x.get_end()) << " which is not part of an edge"); }
    for (std::size_t i = 0; i < e.size(); ++i) { double len = dist(P(e[i].a), P(e[i].b)); bool on = gx::side(e[i].a, e[i].b, o) == 0; VP_CHECK(c, cover[i] <= len + 1e-8 && (on || cover[i] >= len - 1e-8), "painter-cover", "length " << cover[i] << " of the edge " << e[i].a << e[i].b << " visited, it is " << len << " long"); }
    for (int k = 0; k < 8; ++k) { V tg = query(c, r, m); double dx = tg.x - o.x + c.pick<double>({0.1, 0.037, -0.21}), dy = tg.y - o.y + c.pick<double>({0.05, -0.013, 0.3}), last = INFINITY; const S2* ls = nullptr; int n = 0; for (auto& x : seen) { double t = hit(P(o), dx, dy, x); if (t <= 1e-9) continue; ++n; VP_CHECK(c, t <= last + 1e-7 * (1 + t), "painter-order", "visits " << sh(x.get_start()) << sh(x.get_end()) << " after the nearer " << sh(ls->get_start()) << sh(ls->get_end()) << " along (" << dx << "," << dy << ")"); last = t; ls = &x; } if (n > 1) c.nontrivial(); }
}
template <typename F> static void with_solid(Case& c, const Segs& s, F f) { typedef partition_policies::scored_selector_policy<identity_simplex_extractor, Cmp> Sc; if (c.chance(1, 2)) { Solid t(s, partition_policies::autopartition_policy(), cmp()); f(t); } else { Solid t(s, Sc(identity_simplex_extractor(), cmp()), cmp(), identity_simplex_extractor()); Solid u(std::move(t)), w; if (c.chance(1, 3)) { Segs o = s; for (auto& x : s) o.push_back(S2(P2(x.get_start()[0] + 64, x.get_start()[1]), P2(x.get_end()[0] + 64, x.get_end()[1]))); w = Solid(o, partition_policies::autopartition_policy(), cmp()); } else if (c.chance(1, 2)) w = Solid(Segs(1, s[0]), partition_policies::autopartition_policy(), cmp()); w = std::move(u); f(w); } }
VP_ASPECT(solid, 120000, 4000000, "regions (space inside, solid outside, or flipped) with queries at vertices, on edges and their extensions; non-trivial: query on the line of an edge") {
    I m = c.chance(1, 80) ? 24 : c.pick<I>({3, 5, 8}); Region r = twice(region(c, m, c.chance(1, 2))); bool flip = c.chance(1, 4); if (flip) for (auto& p : r) std::reverse(p.begin(), p.end()); auto e = edges(r); double sc = tree_scale(c); for (std::size_t i = e.size(); i > 1; --i) if (c.chance(1, 3)) std::swap(e[i - 1], e[(std::size_t)c.draw(i)]); VP_NOTE(c, "rings " << show(r) << " scale " << sc << (flip ? " flipped" : "")); std::vector<V> qs; for (int k = 0; k < 6; ++k) qs.push_back(query(c, r, 2 * m));
    with_solid(c, segs(e, sc), [&](const Solid& t) { for (V q : qs) { int w = where(r, q); if (flip) w = -w; for (auto& x : e) if (gx::side(x.a, x.b, q) == 0) c.nontrivial(); SC l = t.point_in_solid_space(P(q, sc), cmp()); int g = l == SC::in_empty_space ? 1 : l == SC::in_solid ? -1 : 0; VP_CHECK(c, g == w, "point_in_solid_space", "point " << q << " is " << (g > 0 ? "in empty space" : g < 0 ? "in the solid" : "on the boundary") << ", expected " << nm(w));
        double best = INFINITY; for (auto& x : e) best = std::min(best, pd(P(q), x.a, x.b)); best *= sc; std::size_t idx = 9999; double d2 = t.get_min_distance_sqrd_to_solid(P(q, sc), idx, cmp()); VP_CHECK(c, idx < e.size() && std::fabs(d2 - best * best) <= 1e-9 * (1 + d2), "min_distance", "squared distance of " << q << " is " << d2 << " expected " << best * best); VP_CHECK(c, std::fabs(pd(P(q), e[idx].a, e[idx].b) * sc - best) <= 1e-9 * (1 + best), "min_distance-index", "edge " << idx << " is not closest to " << q); std::size_t i2 = 9999; double d = t.get_min_distance_to_solid(P(q, sc), i2, cmp()); VP_CHECK(c, std::fabs(d - best) <= 1e-8 * (1 + d) && i2 == idx, "min_distance-root", "distance " << d << " expected " << best); } });
}
VP_ASPECT(ray, 120000, 4000000, "rays from empty space in lattice directions, many along the line of an edge or through a gap between collinear edges; non-trivial: the ray crosses the line of an edge before its hit") {
    I m = c.chance(1, 80) ? 24 : c.pick<I>({3, 5, 8}); Region r = twice(region(c, m, c.chance(1, 2))); bool flip = c.chance(1, 4); if (flip) for (auto& p : r) std::reverse(p.begin(), p.end()); auto e = edges(r); double sc = tree_scale(c); VP_NOTE(c, "rings " << show(r) << " scale " << sc << (flip ? " flipped" : "")); V o = query(c, r, 2 * m), d(c.around(3), c.around(3)); if (c.chance(1, 2)) { auto& x = e[(std::size_t)c.draw(e.size())]; d = c.chance(1, 2) ? x.b - x.a : V(x.a.y - x.b.y, x.b.x - x.a.x); } if (c.chance(1, 3)) d = query(c, r, 2 * m) - o; if (d == V(0, 0)) d = V(1, 0); VP_NOTE(c, " ray " << o << d); int w = where(r, o); if (flip) w = -w; if (w <= 0) { c.discard(); return; }
    // contacts of the ray with edges, exact parameters in units of d; the region changes when the midpoint of the following gap is not empty
    std::vector<Q> ts; for (auto& x : e) { V u = x.b - x.a; I den = gx::cross(d, u); if (den) { Q t(gx::cross(x.a - o, u), den), k(gx::cross(x.a - o, d), den); if (Q(0) < t && Q(0) <= k && k <= Q(1)) ts.push_back(t); if (Q(0) < t && (k < Q(0) || Q(1) < k)) c.nontrivial(); } else if (gx::cross(x.a - o, d) == 0) for (V v : {x.a, x.b}) { Q t(gx::dot(v - o, d), gx::dot(d, d)); if (Q(0) < t) ts.push_back(t); } }
    std::sort(ts.begin(), ts.end()); ts.erase(std::unique(ts.begin(), ts.end()), ts.end()); int cross = -1; for (std::size_t i = 0; i < ts.size() && cross < 0; ++i) { Q mid = i + 1 < ts.size() ? (ts[i] + ts[i + 1]) * Q(1, 2) : ts[i] + Q(1); I K = (I)mid.d; Region big = r; for (auto& p : big) for (auto& v : p) v = K * v; int z = where(big, K * o + (I)mid.n * d); if (flip) z = -z; if (z < 0) cross = (int)i; if (z == 0) { cross = (int)i; c.label("runs along an edge"); } }
    double len = std::sqrt((double)gx::dot(d, d)); V2 u(d.x / len, d.y / len); bool graze = cross > 0 || (cross < 0 && !ts.empty()); if (graze) c.label("grazes"); bool along = false; if (cross >= 0) { Q mid = (std::size_t)cross + 1 < ts.size() ? (ts[cross] + ts[cross + 1]) * Q(1, 2) : ts[cross] + Q(1); I K = (I)mid.d; Region big = r; for (auto& p : big) for (auto& v : p) v = K * v; along = where(big, K * o + (I)mid.n * d) == 0; }
    with_solid(c, segs(e, sc), [&](const Solid& t) { for (int border = 0; border < 2; ++border) { auto h = border ? t.ray_intersection_only_border(P(o, sc), u, cmp()) : t.ray_intersection(P(o, sc), u, cmp()); const char* name = border ? "ray_intersection_only_border" : "ray_intersection"; if (cross < 0 && ts.empty()) { VP_CHECK(c, !h.is_intersecting() && h == false, name, "hits at " << h.intersection_distance() << " though nothing is in the way"); continue; } if (along || (cross < 0)) continue;
        VP_CHECK(c, h.is_intersecting(), name, "misses the solid at " << ts[cross].dbl() * len * sc); double got = h.intersection_distance(); bool ok = false; for (int i = 0; i <= cross; ++i) ok = ok || std::fabs(got - ts[i].dbl() * len * sc) <= 1e-8 * (1 + got); VP_CHECK(c, ok, name, "hits at " << got << ", expected " << ts[cross].dbl() * len * sc); P2 x(o.x * sc + u[0] * got, o.y * sc + u[1] * got); if (!graze) VP_CHECK(c, h.get_data() < e.size() && pd(P2(x[0] / sc, x[1] / sc), e[h.get_data()].a, e[h.get_data()].b) < 1e-7, "ray-data", name << " names edge " << h.get_data() << " which is not hit"); } });
}
VP_ASPECT(policies, 200000, 6000000, "lists of 1 to 8 lattice segments, any of them already used; non-trivial: the first is used") {
    int n = (int)c.range(1, 8); I m = c.pick<I>({3, 5, 9}); std::vector<E> e; Segs s; for (int i = 0; i < n; ++i) { V a(c.around(m), c.around(m)), b(c.around(m), c.around(m)); if (!e.empty() && c.chance(1, 3)) { auto& x = e[(std::size_t)c.draw(e.size())]; a = x.b; if (c.chance(1, 2)) b = x.b + (x.b - x.a); } if (a == b) b = a + V(1, 0); e.push_back(E{a, b}); } s = segs(e, 1); boost::dynamic_bitset<> used((std::size_t)n); for (int i = 0; i < n; ++i) if (c.chance(1, 3)) used.set((std::size_t)i); if (used[0]) c.nontrivial();
    { std::ostringstream o; for (auto& x : e) o << x.a << x.b << " "; std::string bits; for (int i = 0; i < n; ++i) bits += used[(std::size_t)i] ? '1' : '0'; VP_NOTE(c, "segments " << o.str() << " used " << bits); } const Segs& cs = s; const auto before = used;
    auto only = [&](const boost::dynamic_bitset<>& u, int at) { for (int i = 0; i < n; ++i) if (u[(std::size_t)i] != (before[(std::size_t)i] || i == at)) return false; return true; };
    { auto u = before; auto it = partition_policies::autopartition_policy()(cs, u); int at = (int)(it - cs.begin()), want = 0; while (want < n && before[(std::size_t)want]) ++want; VP_CHECK(c, at == want, "autopartition", "selects entry " << at << ", the first unused one is " << want); VP_CHECK(c, only(u, at), "autopartition-marks", "marks other entries than the one it selects"); }
    { auto u = before; partition_policies::scored_selector_policy<identity_simplex_extractor, Cmp> p(identity_simplex_extractor(), cmp()); auto it = p(cs, u); int at = (int)(it - cs.begin()); VP_CHECK(c, (at == n) == before.all() && (at == n || !before[(std::size_t)at]), "scored", "selects entry " << at); VP_CHECK(c, only(u, at), "scored-marks", "marks other entries than the one it selects");
      if (at < n) { auto score = [&](int k, int& split, int& off) { split = off = 0; for (int j = 0; j < n; ++j) if (j != k) { I p0 = gx::cross(e[k].b - e[k].a, e[j].a - e[k].a), p1 = gx::cross(e[k].b - e[k].a, e[j].b - e[k].a); if ((p0 > 0 && p1 < 0) || (p0 < 0 && p1 > 0)) ++split; else if (p0 < 0 || p1 < 0) --off; else ++off; } off = std::abs(off); }; int sa, oa; score(at, sa, oa); for (int k = 0; k < n; ++k) if (!before[(std::size_t)k]) { int sk, ok; score(k, sk, ok); VP_CHECK(c, !(sk <= sa && ok <= oa && sk + ok < sa + oa), "scored-best", "selects entry " << at << " with " << sa << " splits and imbalance " << oa << ", entry " << k << " has " << sk << " and " << ok); } } }
    { partition_policies::random_partition_selector_policy<> p; int at = (int)(p(cs) - cs.begin()); VP_CHECK(c, at >= 0 && at < n, "random-partition", "selects entry " << at); random_integer_generator<> g((unsigned long)c.draw(1000)); auto in = [&](const S2& x) { for (auto& y : s) if (dist(x.get_start(), y.get_start()) == 0 && dist(x.get_end(), y.get_end()) == 0) return true; return false; }; partition_policies::random_segment_selector_policy<S2> q(g); VP_CHECK(c, in(q(cs)), "random-segment", "selects a segment which is not in the list"); if (n <= 4 && c.chance(1, 40)) { typedef std::array<double, 4> A4; auto key = [](const S2& x) { return A4{{x.get_start()[0], x.get_start()[1], x.get_end()[0], x.get_end()[1]}}; }; std::set<A4> all, hit; for (auto& x : s) all.insert(key(x)); for (int k = 0; k < 200; ++k) hit.insert(key(q(cs))); VP_CHECK(c, hit == all, "random-segment-all", "only " << hit.size() << " of " << all.size() << " segments come up in 200 draws"); } VP_CHECK(c, in(partition_policies::scored_segment_selector_policy<S2, Cmp>(cmp())(cs)), "scored-segment", "selects a segment which is not in the list"); }
}
#ifndef VP_NO_DETAIL
VP_ASPECT(split, 200000, 6000000, "convex polygons and segments split by the line through two lattice points; non-trivial: the line runs through a vertex") {
    I m = c.pick<I>({3, 5, 9, 40}); Poly g = gx::rotate_start(c, gx::gen_convex(c, m, 8)); if (c.chance(1, 2)) std::reverse(g.begin(), g.end()); V a(c.around(m), c.around(m)), b(c.around(m), c.around(m)); if (c.chance(1, 3)) a = g[(std::size_t)c.draw(g.size())]; if (c.chance(1, 6)) b = g[(std::size_t)c.draw(g.size())]; if (a == b) b = a + V(1, 2); double sc = c.pick<double>({1, 0.5, 0.1, 100}); VP_NOTE(c, "polygon " << g << " line " << a << b << " scale " << sc);
    std::vector<P2> w[2]; bool st[2] = {false, false}; std::size_t n = g.size(); auto side = [&](V p) { return gx::orient(a, b, p); };
    for (std::size_t i = 0; i < n; ++i) { I x = side(g[i]), y = side(g[(i + 1) % n]); V p = g[i], q = g[(i + 1) % n]; if (x >= 0) w[0].push_back(P(p, sc)); if (x <= 0) w[1].push_back(P(p, sc)); if (x > 0) st[0] = true; if (x < 0) st[1] = true; if (!x) c.nontrivial(); if ((x > 0 && y < 0) || (x < 0 && y > 0)) { double t = (double)x / (double)(x - y); P2 z((p.x + t * (q.x - p.x)) * sc, (p.y + t * (q.y - p.y)) * sc); w[0].push_back(z); w[1].push_back(z); } }
    if (!st[0] || !st[1]) { c.discard(); return; } line<P2> l(P(a, sc), P(b, sc)); polygon<P2> in, o[2]; for (V p : g) in.push_back(P(p, sc)); bsp_detail::split_simplex(in, l, o[0], o[1], cmp());
    for (int k = 0; k < 2; ++k) { bool same = o[k].size() == w[k].size(); if (same) { bool any = false; for (std::size_t r = 0; r < w[k].size() && !any; ++r) { bool all = true; for (std::size_t i = 0; i < w[k].size() && all; ++i) all = dist(o[k][i], w[k][(i + r) % w[k].size()]) <= 1e-8 * (1 + sc); any = all; } same = any; } std::ostringstream os; for (auto& p : o[k]) os << sh(p); VP_CHECK(c, same, k ? "split-back" : "split-front", "part " << os.str() << " where " << w[k].size() << " points are expected"); }
    V s0 = g[0], s1 = g[1]; I x = side(s0), y = side(s1); if ((x > 0 && y < 0) || (x < 0 && y > 0)) { S2 f, r; bsp_detail::split_simplex(Seg(s0, s1, sc), l, f, r, cmp()); double t = (double)x / (double)(x - y); P2 z((s0.x + t * (s1.x - s0.x)) * sc, (s0.y + t * (s1.y - s0.y)) * sc); const S2& p = x > 0 ? f : r; const S2& q = x > 0 ? r : f; double e = 1e-8 * (1 + sc); VP_CHECK(c, dist(p.get_start(), P(s0, sc)) <= e && dist(p.get_end(), z) <= e && dist(q.get_start(), z) <= e && dist(q.get_end(), P(s1, sc)) <= e, "split-segment", "front " << sh(f.get_start()) << sh(f.get_end()) << " back " << sh(r.get_start()) << sh(r.get_end())); }
}
#endif
