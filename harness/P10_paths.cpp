// P10: segment against polyline/polygon, polyline against polyline, polygon/polyline against box.
#include "gl.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/segment_mid_point.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_polygon_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_projects_outside_polygon.hpp>
#include <geometrix/algorithm/intersection/polyline_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/polygon_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_aabb_intersection.hpp>
using namespace geometrix; using namespace gl; using vp::Case;
struct Ev { int kind; bool loose; double x0, y0, x1, y1; std::size_t a, i; }; // loose: single-point collinear contact
static bool ev(V a, V b, V u, V v, Ev& e) {
    if (!gx::seg_seg(a, b, u, v)) return false; I den = gx::cross(b - a, v - u); e.loose = false;
    if (den) { Q t(gx::cross(u - a, v - u), den); e.kind = gx::proper_cross(a, b, u, v) ? e_crossing : e_endpoint; e.x0 = e.x1 = (double)(a.x + t.ld() * (b.x - a.x)); e.y0 = e.y1 = (double)(a.y + t.ld() * (b.y - a.y)); return true; }
    V s[4]; int k = 0; if (gx::on_seg(a, b, u)) s[k++] = u; if (gx::on_seg(a, b, v)) s[k++] = v; if (gx::on_seg(u, v, a)) s[k++] = a; if (gx::on_seg(u, v, b)) s[k++] = b; std::sort(s, s + k); e.kind = e_overlapping; e.loose = s[0] == s[k - 1]; e.x0 = s[0].x; e.y0 = s[0].y; e.x1 = s[k - 1].x; e.y1 = s[k - 1].y; return true; }
static bool same(const Ev& w, intersection_type t, const P2& x, const P2& y, double sc, double tl) {
    auto at = [&](const P2& p, double a, double b) { return std::hypot(p[0] - a * sc, p[1] - b * sc) <= tl; };
    if (w.loose) return (t == e_overlapping || t == e_endpoint) && at(x, w.x0, w.y0) && (t == e_endpoint || at(y, w.x0, w.y0)); if (t != w.kind) return false; if (t != e_overlapping) return at(x, w.x0, w.y0); return (at(x, w.x0, w.y0) && at(y, w.x1, w.y1)) || (at(y, w.x0, w.y0) && at(x, w.x1, w.y1)); }
static void seg_for(Case& c, const Poly& g, I m, V& a, V& b) { a = c.chance(1, 2) ? gx::probe(c, g, m) : gx::pt(c, m); b = c.chance(1, 2) ? gx::probe(c, g, m) : gx::pt(c, m); if (c.chance(1, 4)) { std::size_t i = c.draw(g.size()), j = (i + 1) % g.size(); a = g[i] - c.around(2) * (g[j] - g[i]); b = g[j] + c.around(2) * (g[j] - g[i]); } if (a == b) b = b + V(1, 0); }

VP_ASPECT(segment_path, 500000, 15000000, "segment against an open path or a simple polygon border, with a visitor that may stop; non-trivial: at least two events") {
    I m = c.pick<I>({3, 5, 8, 20, 100}); bool closed = c.chance(1, 2); Poly g = closed ? gx::rotate_start(c, gx::gen_simple(c, m)) : gx::gen_any_chain(c, m, 8); if (closed && c.chance(1, 3)) g = gx::with_collinear(c, g); if (closed && c.chance(1, 3)) std::reverse(g.begin(), g.end()); V a, b; seg_for(c, g, m, a, b); double sc = pick_scale(c, m); std::size_t stop = c.chance(1, 3) ? 1 + (std::size_t)c.draw(3) : 1000;
    for (std::size_t i = 0; i + 1 < g.size(); ++i) if (g[i] == g[i + 1]) c.discard();
    VP_NOTE(c, (closed ? "polygon " : "polyline ") << g << " segment " << a << b << " scale " << sc << " stop after " << stop);
    std::vector<Ev> want; for (std::size_t i = 0; i + (closed ? 0 : 1) < g.size(); ++i) { Ev e; if (ev(a, b, g[i], g[(i + 1) % g.size()], e)) { e.i = i; want.push_back(e); } } bool any = !want.empty(); if (want.size() >= 2) c.nontrivial(); if (want.size() > stop) want.resize(stop);
    std::vector<std::string> bad; std::size_t n = 0; double tl = 1e-8 * (m + 5) * sc; auto vis = [&](intersection_type t, std::size_t i, std::size_t j, const P2& x, const P2& y) { std::ostringstream os; if (n >= want.size()) os << "extra event on edge " << i; else if (want[n].i != i || j != (i + 1) % g.size()) os << "event " << n << " on edge " << i << "-" << j << " expected edge " << want[n].i; else if (!same(want[n], t, x, y, sc, tl)) os << "edge " << i << ": type " << t << " at " << sh(x) << sh(y) << " expected type " << want[n].kind << " at " << want[n].x0 << "," << want[n].y0; if (!os.str().empty()) bad.push_back(os.str()); ++n; return n >= stop; };
    bool pts = c.chance(1, 2), r; if (closed) r = pts ? segment_polygon_border_intersect(P(a, sc), P(b, sc), Pg(g, sc), vis, cmp()) : segment_polygon_border_intersect(Seg(a, b, sc), Pg(g, sc), vis, cmp()); else r = pts ? segment_polyline_intersect(P(a, sc), P(b, sc), Pl(g, sc), vis, cmp()) : segment_polyline_intersect(Seg(a, b, sc), Pl(g, sc), vis, cmp());
    std::string tag = closed ? "segment_polygon_border_intersect" : "segment_polyline_intersect"; VP_CHECK(c, r == any, tag, "returns " << r << " expected " << any); VP_CHECK(c, bad.empty(), tag + "-event", bad[0]); VP_CHECK(c, n == want.size(), tag + "-count", n << " events, expected " << want.size());
}
VP_ASPECT(polyline_polyline, 400000, 12000000, "two lattice polylines, visitor that may stop; non-trivial: events on two different edges of the first") {
    I m = c.pick<I>({3, 5, 8, 20}); Poly g = gx::gen_any_chain(c, m, 6), h = gx::gen_any_chain(c, m, c.chance(1, 8) ? 8 : 6); for (auto* q : {&g, &h}) for (std::size_t i = 0; i + 1 < q->size(); ++i) if ((*q)[i] == (*q)[i + 1]) c.discard(); double sc = pick_scale(c, m); std::size_t stop = c.chance(1, 3) ? 1 + (std::size_t)c.draw(4) : 1000;
    VP_NOTE(c, "polylines " << g << h << " scale " << sc << " stop after " << stop); std::vector<Ev> want; for (std::size_t k = 0; k + 1 < g.size(); ++k) for (std::size_t i = 0; i + 1 < h.size(); ++i) { Ev e; if (ev(g[k], g[k + 1], h[i], h[i + 1], e)) { e.a = k; e.i = i; want.push_back(e); } } bool any = !want.empty(); if (any && want[0].a != want.back().a) c.nontrivial(); if (want.size() > stop) want.resize(stop);
    std::vector<std::string> bad; std::size_t n = 0; double tl = 1e-8 * (m + 5) * sc; auto vis = [&](intersection_type t, std::size_t i1, std::size_t j1, std::size_t i, std::size_t j, const P2& x, const P2& y) { std::ostringstream os; if (n >= want.size()) os << "extra event"; else if (want[n].i != i || want[n].a != i1 || j != i + 1 || j1 != i1 + 1) os << "event " << n << " on edges " << i1 << "," << i << " expected " << want[n].a << "," << want[n].i; else if (!same(want[n], t, x, y, sc, tl)) os << "edges " << i1 << "," << i << ": type " << t << " at " << sh(x) << sh(y) << " expected " << want[n].kind; if (!os.str().empty()) bad.push_back(os.str()); ++n; return n >= stop; };
    bool r = polyline_polyline_intersect(Pl(g, sc), Pl(h, sc), vis, cmp()); VP_CHECK(c, r == any, "polyline_polyline_intersect", "returns " << r << " expected " << any); VP_CHECK(c, bad.empty(), "polyline_polyline_intersect-event", bad[0]); VP_CHECK(c, n == want.size(), "polyline_polyline_intersect-count", n << " events, expected " << want.size());
}
VP_ASPECT(segment_polygon, 300000, 10000000, "segment against a solid simple polygon: the parts inside; non-trivial: at least three parts") {
    I m = c.pick<I>({3, 5, 8, 12}); Poly g = gx::rotate_start(c, m == 12 && c.chance(1, 16) ? gx::gen_monotone(c, m) : gx::gen_simple(c, m)); if (c.chance(1, 3)) g = gx::with_collinear(c, g); if (c.chance(1, 3)) std::reverse(g.begin(), g.end()); V a, b; seg_for(c, g, m, a, b); double sc = c.pick<double>({1.0, 0.5, 0.1, 4.0}); VP_NOTE(c, "polygon " << g << " segment " << a << b << " scale " << sc);
    V d = b - a; I l2 = gx::dot(d, d); std::vector<Q> t; bool contact = false; for (std::size_t i = 0; i < g.size(); ++i) { V u = g[i], v = g[(i + 1) % g.size()]; if (!gx::seg_seg(a, b, u, v)) continue; contact = true; I den = gx::cross(d, v - u); if (den) t.push_back(Q(gx::cross(u - a, v - u), den)); else for (V w : {u, v}) if (gx::on_seg(a, b, w)) t.push_back(Q(gx::dot(w - a, d), l2)); }
    t.push_back(Q(0)); t.push_back(Q(1)); std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end()); bool rev = b < a; std::vector<std::pair<Q, Q>> want; bool outside = false;
    for (std::size_t i = 0; i + 1 < t.size(); ++i) { I K = (I)(2 * t[i].d * t[i + 1].d), N = (I)(t[i].n * t[i + 1].d + t[i + 1].n * t[i].d); Poly gs; for (auto v : g) gs.push_back(K * v); V mid = K * a + N * d; if (gx::locate(gs, mid) >= 0) want.push_back({t[i], t[i + 1]}); else outside = true; }
    if (t.size() >= 4) c.nontrivial(); c.label_if(!contact, "no border contact"); if (rev) std::reverse(want.begin(), want.end());
    std::vector<S2> got; bool r = segment_polygon_intersection(Seg(a, b, sc), Pg(g, sc), [&](const S2& s) { got.push_back(s); }, cmp()); bool any = contact || !want.empty(); VP_CHECK(c, r == any, "segment_polygon_intersection", "returns " << r << " expected " << any); VP_CHECK(c, got.size() == want.size(), "segment_polygon_intersection-parts", got.size() << " parts inside, expected " << want.size());
    for (std::size_t i = 0; i < got.size(); ++i) { auto at = [&](const P2& p, Q q) { return std::hypot(p[0] - (double)(a.x + q.ld() * d.x) * sc, p[1] - (double)(a.y + q.ld() * d.y) * sc) <= 1e-8 * (m + 5) * sc; }; bool ok = (at(got[i].get_start(), want[i].first) && at(got[i].get_end(), want[i].second)) || (at(got[i].get_start(), want[i].second) && at(got[i].get_end(), want[i].first)); VP_CHECK(c, ok, "segment_polygon_intersection-part", "part " << i << " is " << sh(got[i].get_start()) << sh(got[i].get_end()) << " expected parameters " << want[i].first << ".." << want[i].second); }
    bool po = segment_projects_outside_polygon(Seg(a, b, sc), Pg(g, sc), cmp()); if (contact) VP_CHECK(c, po == outside, "segment_projects_outside_polygon", "returns " << po << " expected " << outside); else if (!want.empty()) VP_CHECK(c, !po, "segment_projects_outside_polygon", "a segment strictly inside projects outside");
}
VP_ASPECT(path_box, 400000, 12000000, "simple polygon and polyline against a solid box; non-trivial: a polygon hit with no polygon vertex in the box") {
    I m = c.pick<I>({3, 5, 8, 20, 100}); Poly g = gx::rotate_start(c, gx::gen_simple(c, m)), h = gx::gen_any_chain(c, m, 6); if (c.chance(1, 3)) std::reverse(g.begin(), g.end()); V p = c.chance(1, 2) ? gx::probe(c, g, m) : gx::pt(c, m + 3), q = c.chance(1, 2) ? p + gx::pt(c, 2) : gx::pt(c, m + 3); V lo(std::min(p.x, q.x), std::min(p.y, q.y)), hi(std::max(p.x, q.x), std::max(p.y, q.y)); if (lo.x == hi.x) ++hi.x; if (lo.y == hi.y) ++hi.y; double sc = c.pick<double>({1.0, 0.5, 4.0, 0.015625, 256.0}); VP_NOTE(c, "polygon " << g << " polyline " << h << " box " << lo << hi << " scale " << sc);
    Poly bx{lo, V(hi.x, lo.y), hi, V(lo.x, hi.y)}; auto seg_box = [&](V a, V b) { if (gx::locate(bx, a) >= 0 || gx::locate(bx, b) >= 0) return true; for (int i = 0; i < 4; ++i) if (gx::seg_seg(a, b, bx[i], bx[(i + 1) % 4])) return true; return false; };
    bool wp = gx::locate(g, lo) >= 0, wl = false, vin = false; for (std::size_t i = 0; i < g.size(); ++i) { wp = wp || seg_box(g[i], g[(i + 1) % g.size()]); vin = vin || gx::locate(bx, g[i]) >= 0; } for (std::size_t i = 0; i + 1 < h.size(); ++i) wl = wl || seg_box(h[i], h[i + 1]); if (wp && !vin) c.nontrivial(); axis_aligned_bounding_box<P2> b(P(lo, sc), P(hi, sc));
    VP_CHECK(c, polygon_aabb_intersection(Pg(g, sc), b) == wp, "polygon_aabb_intersection", "expected " << wp); VP_CHECK(c, polyline_aabb_intersection(Pl(h, sc), b) == wl, "polyline_aabb_intersection", "expected " << wl);
}
