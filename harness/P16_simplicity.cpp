// P16: simplicity of polygons (with holes), polyline self-intersection, containment of polygons and polylines in polygons.
#include "gl.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/utility/memoize.hpp>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/segment_mid_point.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_projects_outside_polygon.hpp>
#include <geometrix/algorithm/point_sequence/is_polygon_simple.hpp>
#include <geometrix/algorithm/point_sequence/self_intersection.hpp>
#include <geometrix/algorithm/point_sequence/polygon_polygon_containment.hpp>
#include <geometrix/algorithm/point_sequence/polygon_polyline_containment.hpp>
#include <geometrix/algorithm/polygon_with_holes_as_segment_range.hpp>
using namespace geometrix; using namespace gl; using vp::Case;
static Poly ring(Case& c, I m) { // often not simple: random, or simple with one vertex moved (onto another vertex or edge)
    Poly g; if (c.chance(1, 3)) { int n = (int)c.range(4, 8); for (int i = 0; i < n; ++i) g.push_back(gx::pt(c, m)); } else { g = gx::rotate_start(c, gx::gen_simple(c, m, 10)); if (c.chance(1, 3)) g = gx::with_collinear(c, g); if (c.chance(1, 2)) std::reverse(g.begin(), g.end()); if (c.chance(2, 3)) g[(std::size_t)c.draw(g.size())] = gx::probe(c, g, m); }
    Poly r; for (auto v : g) if (r.empty() || r.back() != v) r.push_back(v); while (r.size() > 1 && r.back() == r.front()) r.pop_back(); if (r.size() < 3 || (r.size() == 3 && gx::area2(r) == 0)) r = Poly{V(0, 0), V(m, 0), V(m, m), V(0, m)}; return r; }
VP_ASPECT(simple, 500000, 15000000, "ring without repeated consecutive vertices, mostly near-simple with one vertex moved onto or across another edge; non-trivial: not simple, or simple after the move with a reflex vertex") {
    I m = c.pick<I>({3, 2, 5, 8, 20, 100}); Poly g = ring(c, m); double sc = c.pick<double>({1.0, 0.5, 4.0, 0.015625, 256.0}); VP_NOTE(c, "polygon " << g << " scale " << sc); bool w = gx::is_simple(g); c.label(w ? "simple" : "not simple"); if (!w || g.size() > 5) c.nontrivial();
    VP_CHECK(c, is_polygon_simple(Pg(g, sc), cmp()) == w, "is_polygon_simple", "expected " << w); VP_CHECK(c, is_polygon_simple_memoized(Pg(g, sc), cmp()) == w, "is_polygon_simple_memoized", "expected " << w);
}
VP_ASPECT(holes, 200000, 6000000, "outer ring and up to three holes, some touching or not simple; non-trivial: every ring simple") {
    I m = c.pick<I>({6, 8, 12, 30}); Poly o = c.chance(3, 4) ? gx::gen_simple(c, 2 * m, 8) : ring(c, 2 * m); std::vector<Poly> h; int k = (int)c.draw(4); for (int i = 0; i < k; ++i) { Poly r = c.chance(5, 6) ? gx::gen_simple(c, 2, 6) : ring(c, 2); h.push_back(gx::translate(r, gx::pt(c, m))); } if (c.chance(1, 100)) { /* a row of many holes, one of which may touch its neighbours or the outer ring */ h.clear(); int n = (int)c.range(10, 60), at = (int)c.draw((std::uint64_t)n); for (int i = 0; i < n; ++i) { I x = 6 * i, y = 0; if (i == at) { x += c.around(5); y += c.around(5); } h.push_back(Poly{V(x, y), V(x + 3, y), V(x + 3, y + 3), V(x, y + 3)}); } o = Poly{V(-4, -4), V(6 * n + 2, -4), V(6 * n + 2, 8), V(-4, 8)}; }
    k = (int)h.size(); std::ostringstream os; for (auto& r : h) os << r; VP_NOTE(c, "outer " << o << " holes " << os.str());
    std::vector<Poly> all(1, o); all.insert(all.end(), h.begin(), h.end()); bool w = true; for (auto& r : all) w = w && gx::is_simple(r); if (w && k) c.nontrivial(); for (std::size_t a = 0; w && a < all.size(); ++a) for (std::size_t b = a + 1; w && b < all.size(); ++b) for (std::size_t i = 0; w && i < all[a].size(); ++i) for (std::size_t j = 0; w && j < all[b].size(); ++j) w = !gx::seg_seg(all[a][i], all[a][(i + 1) % all[a].size()], all[b][j], all[b][(j + 1) % all[b].size()]); c.label(w ? "simple" : "not simple");
    polygon_with_holes<P2> p(Pg(o)); for (auto& r : h) p.add_hole(Pg(r)); VP_CHECK(c, is_polygon_with_holes_simple(p, cmp()) == w, "is_polygon_with_holes_simple", "expected " << w);
    auto s = polygon_with_holes_as_segment_range<S2>(p); std::size_t at = 0; bool ok = true; for (auto& r : all) for (std::size_t i = 0; i < r.size(); ++i, ++at) ok = ok && at < s.size() && dist(s[at].get_start(), P(r[i])) == 0 && dist(s[at].get_end(), P(r[(i + 1) % r.size()])) == 0; VP_CHECK(c, ok && at == s.size(), "polygon_with_holes_as_segment_range", s.size() << " segments, expected " << at << " in ring order");
}
VP_ASPECT(self_intersection, 400000, 12000000, "polyline without repeated consecutive vertices; non-trivial: at least two reported pairs") {
    I m = c.pick<I>({3, 2, 5, 8, 20, 100}); Poly g = gx::gen_any_chain(c, m, 9); if (c.chance(1, 3)) { std::size_t i = (std::size_t)c.draw(g.size() - 1); V a = g[i], b = g[i + 1]; g.insert(g.begin() + i + 2, c.chance(1, 2) ? b + (b - a) : a + c.around(3) * (b - a)); Poly r; for (auto v : g) if (r.empty() || r.back() != v) r.push_back(v); g = r; } VP_NOTE(c, "polyline " << g); std::size_t n = g.size();
    std::map<std::pair<std::size_t, std::size_t>, int> want; for (std::size_t i = 0; i + 1 < n; ++i) for (std::size_t j = i + 1; j + 1 < n; ++j) { if (j == i + 1) { if (gx::side(g[i], g[j], g[j + 1]) == 0 && gx::dot(g[j] - g[i], g[j + 1] - g[j]) < 0) want[{i, j}] = 2; } else if (gx::seg_seg(g[i], g[i + 1], g[j], g[j + 1])) want[{i, j}] = gx::proper_cross(g[i], g[i + 1], g[j], g[j + 1]) ? 0 : 1; } if (want.size() > 1) c.nontrivial();
    std::string bad; std::size_t seen = 0; auto vis = [&](std::size_t i, std::size_t j, intersection_type t, const P2& x, const P2& y) { auto f = want.find({i, j}); ++seen; if (f == want.end()) { if (bad.empty()) bad = "reports segments " + std::to_string(i) + " and " + std::to_string(j) + " type " + std::to_string((int)t); return; } double tl = 1e-8 * (m + 5); if (bad.empty() && ((f->second == 0 && t != e_crossing) || (f->second == 2 && t != e_overlapping) || (f->second == 1 && t == e_crossing))) bad = "wrong type"; if (bad.empty() && (pd(x, g[i], g[i + 1]) > tl || pd(x, g[j], g[j + 1]) > tl)) bad = "point not on both segments"; if (bad.empty() && t == e_overlapping && (pd(y, g[i], g[i + 1]) > tl || pd(y, g[j], g[j + 1]) > tl)) bad = "second point not on both segments"; };
    bool r = polyline_self_intersection(Pl(g), vis, cmp()); VP_CHECK(c, bad.empty(), "polyline_self_intersection-event", bad); VP_CHECK(c, seen == want.size(), "polyline_self_intersection-count", seen << " pairs reported, expected " << want.size()); VP_CHECK(c, r == !want.empty(), "polyline_self_intersection", "returns " << r);
}
static bool seg_in(const Poly& g, V a, V b) { // closed segment inside the closed polygon, exact
    V d = b - a; I l2 = gx::dot(d, d); std::vector<Q> t{Q(0), Q(1)}; for (std::size_t i = 0; i < g.size(); ++i) { V u = g[i], v = g[(i + 1) % g.size()]; if (!gx::seg_seg(a, b, u, v)) continue; I den = gx::cross(d, v - u); if (den) t.push_back(Q(gx::cross(u - a, v - u), den)); else for (V w : {u, v}) if (gx::on_seg(a, b, w)) t.push_back(Q(gx::dot(w - a, d), l2)); } std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end());
    if (gx::locate(g, a) < 0 || gx::locate(g, b) < 0) return false; for (std::size_t i = 0; i + 1 < t.size(); ++i) { I K = (I)(2 * t[i].d * t[i + 1].d), N = (I)(t[i].n * t[i + 1].d + t[i + 1].n * t[i].d); Poly gs; for (auto v : g) gs.push_back(K * v); if (gx::locate(gs, K * a + N * d) < 0) return false; } return true; }
VP_ASPECT(containment, 300000, 10000000, "simple polygon (with collinear vertices, either winding) against a polygon or polyline built from its own border points, shifted or shrunk copies, or random; non-trivial: contained and touching the border, or not contained with every vertex inside") {
    I m = c.pick<I>({3, 5, 8, 12, 20}); Poly g = gx::rotate_start(c, gx::gen_simple(c, m, 9)); if (c.chance(1, 3)) g = gx::with_collinear(c, g); if (c.chance(1, 2)) std::reverse(g.begin(), g.end()); bool pg = c.chance(1, 2); Poly h;
    if (pg) { switch (g.size() > 15 ? 4 : c.draw(5)) { case 0: h = gx::gen_simple(c, m, 6); break; case 4: h = g; if (g.size() <= 15) for (V& v : h) if (c.chance(1, 4)) v = v + gx::pt(c, 1); { std::size_t i = (std::size_t)c.draw(h.size()); h[i] = h[i] + gx::pt(c, 2); } if (c.chance(1, 2)) std::rotate(h.begin(), h.begin() + (std::ptrdiff_t)c.draw(h.size()), h.end()); break; case 1: h = gx::translate(gx::gen_simple(c, 2, 5), gx::probe(c, g, m)); break; case 2: { Poly q; int n = (int)c.range(3, 6); for (int i = 0; i < n; ++i) q.push_back(gx::probe(c, g, m)); h = gx::hull(q); break; } default: h = g; h.erase(h.begin() + (std::ptrdiff_t)c.draw(h.size())); h = gx::remove_collinear(h); } if (h.size() < 3 || !gx::is_simple(h)) h = g; if (c.chance(1, 2)) std::reverse(h.begin(), h.end()); }
    else { int n = (int)c.range(2, 5); for (int i = 0; i < n; ++i) { V v = gx::probe(c, g, m); if (h.empty() || h.back() != v) h.push_back(v); } if (h.size() < 2) h.push_back(h[0] + V(1, 0)); }
    double sc = c.pick<double>({1.0, 0.5, 4.0, 0.015625, 256.0}); VP_NOTE(c, (pg ? "polygon " : "polyline ") << h << " in " << g << " scale " << sc); bool w = true, vin = true, touch = false; for (std::size_t i = 0; i < h.size(); ++i) { int l = gx::locate(g, h[i]); if (l < 0) vin = false; if (l == 0) touch = true; } for (std::size_t i = 0; w && i + (pg ? 0 : 1) < h.size(); ++i) w = seg_in(g, h[i], h[(i + 1) % h.size()]); if ((w && touch) || (!w && vin)) c.nontrivial(); c.label(w ? "contained" : "not contained");
    if (pg) VP_CHECK(c, polygon_polygon_containment(Pg(h, sc), Pg(g, sc), cmp()) == w, "polygon_polygon_containment", "expected " << w); else VP_CHECK(c, polygon_polyline_containment(Pl(h, sc), Pg(g, sc), cmp()) == w, "polygon_polyline_containment", "expected " << w);
}
