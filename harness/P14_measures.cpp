// P14: polygon measures, cyclic indexing, equality, congruence, border segment lookup.
#include "gl.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
#include <geometrix/algorithm/point_sequence/is_congruent.hpp>
#include <geometrix/algorithm/point_sequence/find_subsequence.hpp>
using namespace geometrix; using namespace gl; using vp::Case;
static Poly any_ring(Case& c, I m) { Poly g = gx::rotate_start(c, gx::gen_simple(c, m, 12)); if (c.chance(1, 3)) g = gx::with_collinear(c, g); if (c.chance(1, 3)) g = gx::translate(g, gx::pt(c, 10 * m)); if (c.chance(1, 2)) std::reverse(g.begin(), g.end()); return g; }
VP_ASPECT(area_centroid, 400000, 12000000, "simple lattice polygon of either winding and start vertex, also translated; non-trivial: more than four vertices or not convex") {
    I m = gx::grid(c); Poly g = any_ring(c, m); double sc = c.pick<double>({1.0, 0.5, 8.0, 0.1}); VP_NOTE(c, "polygon " << g << " scale " << sc); if (g.size() > 4) c.nontrivial(); G2 G = Pg(g, sc); I a2 = gx::area2(g); double want = 0.5 * (double)a2 * sc * sc; double mag = 1; for (auto v : g) mag = std::max(mag, std::max(std::fabs((double)v.x), std::fabs((double)v.y))); double tol = mag * mag * sc * sc * 1e-13 * g.size();
    VP_CHECK(c, std::fabs(get_signed_area(G) - want) <= tol, "signed_area", get_signed_area(G) << " expected " << want); VP_CHECK(c, std::fabs(get_area(G) - std::fabs(want)) <= tol, "area", get_area(G) << " expected " << std::fabs(want));
    gx::W sx = 0, sy = 0; for (std::size_t i = 0; i < g.size(); ++i) { V p = g[i], q = g[(i + 1) % g.size()]; I k = gx::cross(p, q); sx += (gx::W)k * (p.x + q.x); sy += (gx::W)k * (p.y + q.y); }
    double cx = (double)((long double)sx / (3.0L * a2)) * sc, cy = (double)((long double)sy / (3.0L * a2)) * sc; P2 k = get_centroid(G); double ct = mag * sc * (1e-12 + 1e-13 * mag * mag * g.size() / std::fabs((double)a2)); VP_CHECK(c, std::fabs(k[0] - cx) <= ct && std::fabs(k[1] - cy) <= ct, "centroid", sh(k) << " expected (" << cx << "," << cy << ")");
    long double per = 0; for (std::size_t i = 0; i < g.size(); ++i) { V d = g[(i + 1) % g.size()] - g[i]; per += sqrtl((long double)gx::dot(d, d)) * sc; } VP_CHECK(c, gx::close(polygon_length(G), per), "polygon_length", polygon_length(G) << " expected " << (double)per);
    V l = g.back() - g.front(); long double op = per - sqrtl((long double)gx::dot(l, l)) * sc; VP_CHECK(c, gx::close(polyline_length(Pl(g, sc)), op), "polyline_length", polyline_length(Pl(g, sc)) << " expected " << (double)op);
    G2 R = geometrix::reverse(G); bool ok = R.size() == G.size(); for (std::size_t i = 0; ok && i < R.size(); ++i) ok = R[i][0] == G[G.size() - 1 - i][0] && R[i][1] == G[G.size() - 1 - i][1]; VP_CHECK(c, ok, "reverse", "not the reversed sequence");
}
VP_ASPECT(indexing, 300000, 8000000, "ring with every index queried; non-trivial: ring with a reflex or straight vertex") {
    I m = gx::grid(c); Poly g = gx::make_ccw(any_ring(c, m)); VP_NOTE(c, "polygon " << g); G2 G = Pg(g); L2 L = Pl(g); std::size_t n = g.size();
    for (std::size_t i = 0; i < n; ++i) { VP_CHECK(c, next_index(G, i) == (i + 1) % n, "next_index", "at " << i); VP_CHECK(c, prev_index(G, i) == (i + n - 1) % n, "prev_index", "at " << i); bool cc = gx::side(g[(i + n - 1) % n], g[i], g[(i + 1) % n]) <= 0; if (cc) c.nontrivial(); VP_CHECK(c, is_point_concave(G, i) == cc, "is_point_concave", "vertex " << i << " expected " << cc); }
    auto e = polygon_as_segment_range<S2>(G); VP_CHECK(c, e.size() == n, "polygon_as_segment_range-size", e.size()); for (std::size_t i = 0; i < n; ++i) VP_CHECK(c, dist(e[i].get_start(), G[i]) == 0 && dist(e[i].get_end(), G[(i + 1) % n]) == 0, "polygon_as_segment_range", "edge " << i);
    auto f = polyline_as_segment_range<S2>(L); VP_CHECK(c, f.size() == n - 1, "polyline_as_segment_range-size", f.size()); for (std::size_t i = 0; i + 1 < n; ++i) VP_CHECK(c, dist(f[i].get_start(), G[i]) == 0 && dist(f[i].get_end(), G[i + 1]) == 0, "polyline_as_segment_range", "edge " << i);
}
VP_ASPECT(equality, 400000, 12000000, "ring against itself rotated, perturbed by more or less than the tolerance, reversed or shortened; non-trivial: rotated by a proper offset or one coordinate perturbed") {
    I m = gx::grid(c); Poly g = any_ring(c, m); std::size_t n = g.size(), off = (std::size_t)c.draw(n); Poly h(n); for (std::size_t i = 0; i < n; ++i) h[(i + off) % n] = g[i]; int mode = (int)c.draw(5); if (mode == 1) { auto& v = h[(std::size_t)c.draw(n)]; (c.chance(1, 2) ? v.x : v.y) += c.chance(1, 2) ? 1 : -1; } if (mode == 2) std::reverse(h.begin(), h.end()); if (mode == 3) h.pop_back(); if (off || mode == 1) c.nontrivial();
    VP_NOTE(c, "polygon " << g << " other " << h << " offset " << off); G2 G = Pg(g), H = Pg(h); if (mode == 4) { auto& p = H[(std::size_t)c.draw(n)]; p = P2(p[0] + 4e-11, p[1] - 4e-11); }
    bool want = h.size() == n, seq = want; for (std::size_t i = 0; want && i < n; ++i) want = g[i] == h[(i + off) % n]; for (std::size_t i = 0; seq && i < n; ++i) seq = g[i] == h[i];
    VP_CHECK(c, polygons_equal(G, H, off, cmp()) == want, "polygons_equal", "expected " << want << " at offset " << off); VP_CHECK(c, point_sequences_equal(G, H, cmp()) == seq, "point_sequences_equal", "expected " << seq);
    if (h.size() == n) { std::size_t w = std::numeric_limits<std::size_t>::max(); for (std::size_t i = n; i-- > 0;) if (h[i] == g[0]) w = i; VP_CHECK(c, polygon_polygon_offset(G, H, cmp()) == w, "polygon_polygon_offset", polygon_polygon_offset(G, H, cmp()) << " expected " << w); }
}
VP_ASPECT(congruence, 300000, 8000000, "ring or chain against a rotated and translated copy, its mirror image, or a copy with one vertex moved; non-trivial: the copy differs from the original by more than translation") {
    I m = c.pick<I>({3, 2, 5, 8, 20}); bool ring = c.chance(1, 2); Poly g = ring ? any_ring(c, m) : gx::gen_any_chain(c, m, 8); int q = (int)c.draw(6); int mode = (int)c.draw(4); Poly h; V t = gx::pt(c, 2 * m); I k = 1;
    static const I R[6][3] = {{1, 0, 1}, {0, 1, 1}, {-1, 0, 1}, {0, -1, 1}, {3, 4, 5}, {-5, 12, 13}}; I ca = R[q][0], sa = R[q][1]; k = R[q][2]; for (auto v : g) { if (mode == 1) v.x = -v.x; h.push_back(V(ca * v.x - sa * v.y, sa * v.x + ca * v.y) + k * t); } if (mode == 2) h[(std::size_t)c.draw(h.size())].x += k; if (mode == 3 && c.chance(1, 2)) h.pop_back(); 
    Poly gs; for (auto v : g) gs.push_back(k * v); bool bad = false; for (std::size_t i = 0; i + 1 < h.size(); ++i) bad = bad || h[i] == h[i + 1]; bad = bad || (ring && h.front() == h.back()); if (bad || h.size() < (ring ? 3u : 2u)) { c.discard(); return; }
    VP_NOTE(c, (ring ? "ring " : "chain ") << gs << " against " << h << " over " << k); if (q || mode) c.nontrivial(); bool want = gs.size() == h.size(); std::size_t n = gs.size();
    for (std::size_t i = 0; want && i + (ring ? 0 : 1) < n; ++i) { V a = gs[(i + 1) % n] - gs[i], b = h[(i + 1) % n] - h[i]; want = gx::dot(a, a) == gx::dot(b, b); if (want && (ring || i + 2 < n)) { V a2 = gs[(i + 2) % n] - gs[(i + 1) % n], b2 = h[(i + 2) % n] - h[(i + 1) % n]; want = gx::dot(a, a2) == gx::dot(b, b2) && gx::cross(a, a2) == gx::cross(b, b2); } }
    double s = 1.0 / (double)k; c.label(want ? "congruent" : "not congruent"); bool r = ring ? are_polygons_congruent(Pg(gs, s), Pg(h, s), cmp(1e-9)) : are_polylines_congruent(Pl(gs, s), Pl(h, s), cmp(1e-9)); VP_CHECK(c, r == want, ring ? "are_polygons_congruent" : "are_polylines_congruent", "expected " << want);
}
VP_ASPECT(border_lookup, 400000, 10000000, "lattice probe on or off the border of a ring; non-trivial: probe on the border") {
    I m = gx::grid(c); Poly g = any_ring(c, m); V p = gx::probe(c, g, m); VP_NOTE(c, "polygon " << g << " point " << p); G2 G = Pg(g); P2 q = P(p); std::size_t n = g.size(), first = n; Q best(-1); for (std::size_t i = n; i-- > 0;) { if (gx::on_seg(g[i], g[(i + 1) % n], p)) first = i; Q d = gx::d2_pt_seg(p, g[i], g[(i + 1) % n]); if (best < Q(0) || d < best) best = d; }
    if (first < n) c.nontrivial(); auto r = find_containing_polygon_border_segment(G, q, cmp()); VP_CHECK(c, (bool)r == (first < n), "find_containing_polygon_border_segment", "found " << (bool)r << " expected " << (first < n)); if (r) VP_CHECK(c, *r < n && gx::on_seg(g[*r], g[(*r + 1) % n], p), "find_containing_polygon_border_segment-index", "edge " << *r << " does not contain the point");
    std::size_t k = find_closest_polygon_border_segment(G, q); VP_CHECK(c, k < n && gx::close(gx::d2_pt_seg(p, g[k], g[(k + 1) % n]).ld(), best.ld()), "find_closest_polygon_border_segment", "edge " << k << " is not closest");
    std::size_t k2 = find_containing_or_closest_polygon_border_segment(G, q, cmp()); VP_CHECK(c, k2 < n && gx::close(gx::d2_pt_seg(p, g[k2], g[(k2 + 1) % n]).ld(), best.ld()), "find_containing_or_closest_polygon_border_segment", "edge " << k2 << " is not closest");
}
