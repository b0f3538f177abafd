// P15: operations along a polyline or polygon border by arc length, and discrete curvature.
#include "gl.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
#include <geometrix/algorithm/point_sequence/clip_polyline_ends.hpp>
#include <geometrix/algorithm/point_sequence/polyline_mid_point.hpp>
#include <geometrix/algorithm/point_sequence/polyline_split.hpp>
#include <geometrix/algorithm/point_sequence/find_subsequence.hpp>
#include <geometrix/algorithm/point_sequence/curvature.hpp>
using namespace geometrix; using namespace gl; using vp::Case;
// reference: cumulative lengths, point and sub-path by arc length
struct Path { Poly g; std::vector<LD> cum; bool exact;
    Path(const Poly& p) : g(p), cum(1, 0), exact(true) { for (std::size_t i = 0; i + 1 < g.size(); ++i) { V d = g[i + 1] - g[i]; if (d.x && d.y) exact = false; cum.push_back(cum.back() + sqrtl((LD)gx::dot(d, d))); } }
    LD total() const { return cum.back(); }
    std::pair<LD, LD> at(LD s) const { std::size_t i = 0; while (i + 2 < g.size() && cum[i + 1] < s) ++i; LD t = (s - cum[i]) / (cum[i + 1] - cum[i]); return {g[i].x + t * (g[i + 1].x - g[i].x), g[i].y + t * (g[i + 1].y - g[i].y)}; }
    std::vector<std::pair<LD, LD>> sub(LD a, LD b) const { std::vector<std::pair<LD, LD>> r; r.push_back(at(a)); for (std::size_t i = 0; i < g.size(); ++i) if (cum[i] > a && cum[i] < b) r.push_back({g[i].x, g[i].y}); r.push_back(at(b)); return r; } };
typedef std::vector<std::pair<LD, LD>> Pts;
static Pts tidy(const Pts& p) { Pts r; for (auto& x : p) if (r.empty() || std::hypot((double)(x.first - r.back().first), (double)(x.second - r.back().second)) > 1e-7) r.push_back(x); return r; }
template <class L> static Pts pts(const L& l) { Pts r; for (auto& p : l) r.push_back({p[0], p[1]}); return r; }
static bool same(const Pts& a, const Pts& b, double tol = 1e-7) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (!(std::hypot((double)(a[i].first - b[i].first), (double)(a[i].second - b[i].second)) <= tol)) return false; return true; }
static std::string show(const Pts& p) { std::ostringstream o; for (auto& x : p) o << "(" << (double)x.first << "," << (double)x.second << ")"; return o.str(); }
static bool match(const Pts& got, const Pts& want, bool exact) { return exact ? same(got, want, 1e-9) : same(tidy(got), tidy(want)); }
static Poly chain(Case& c, I m) { if (c.chance(2, 3)) return gx::gen_any_chain(c, m, 8); int n = (int)c.range(2, 8); Poly p; p.push_back(gx::pt(c, m)); for (int i = 1; i < n; ++i) { I d = c.range(1, m); if (c.chance(1, 2)) d = -d; p.push_back(p.back() + (c.chance(1, 2) ? V(d, 0) : V(0, d))); } return p; }
static double position(Case& c, const Path& p, bool& at_vertex) { at_vertex = false; switch (c.draw(4)) { case 0: at_vertex = true; return (double)p.cum[(std::size_t)c.draw(p.cum.size())]; case 1: return (double)p.total() * (double)c.range(0, 64) / 64.0; case 2: return std::floor((double)p.total() * (double)c.draw(65) / 64.0); default: return (double)p.total() * (double)c.range(1, 1000) / 1001.0; } }
static const Pts none;
VP_ASPECT(clip_split, 500000, 15000000, "polyline without repeated consecutive vertices (oblique or axis-parallel, where lengths are exact) cut at a vertex, fraction or integer position; non-trivial: the position is at a vertex or in a later segment") {
    I m = c.pick<I>({3, 2, 5, 8, 20, 100}); Path p(chain(c, m)); bool av; double l = position(c, p, av); L2 L = Pl(p.g); VP_NOTE(c, "polyline " << p.g << " position " << std::setprecision(17) << l << " of " << (double)p.total()); if (av || l > p.cum[1]) c.nontrivial(); LD T = p.total(); bool ex = p.exact && l == std::floor(l); c.label_if(ex, "exact"); bool nearend = l > T - 1e-9L, none_ = l >= T;
    L2 f = clip_polyline_front(L, l, cmp()); Pts want = none_ ? none : p.sub(l, T); if (ex || !nearend) VP_CHECK(c, match(pts(f), want, ex), "clip_front", "gives " << show(pts(f)) << " expected " << show(want)); else VP_CHECK(c, tidy(pts(f)).size() <= 1, "clip_front", "leaves more than the end");
    L2 fi = clip_polyline_front<L2>(L.begin(), L.end(), l, cmp()); if (ex || !nearend) VP_CHECK(c, match(pts(fi), want, ex), "clip_front-iterators", "gives " << show(pts(fi)) << " expected " << show(want));
    L2 b = clip_polyline_back(L, l, cmp()); want = none_ ? none : p.sub(0, T - l); if (ex || !nearend) VP_CHECK(c, match(pts(b), want, ex), "clip_back", "gives " << show(pts(b)) << " expected " << show(want));
    if (2 * (LD)l < T - 1e-7L) { L2 e = clip_polyline_ends(L, l, cmp()); want = p.sub(l, T - l); VP_CHECK(c, match(pts(e), want, ex), "clip_ends", "gives " << show(pts(e)) << " expected " << show(want)); } else if (2 * (LD)l > T + 1e-7L) VP_CHECK(c, clip_polyline_ends(L, l, cmp()).empty(), "clip_ends", "leaves something when more than half is clipped at each end");
    auto s = polyline_split(L, l); Pts wa = l <= 0 ? Pts(1, p.at(0)) : p.sub(0, std::min<LD>(l, T)), wb = none_ ? Pts(1, p.at(T)) : p.sub(l, T); VP_CHECK(c, match(pts(std::get<0>(s)), wa, ex), "split-first", "gives " << show(pts(std::get<0>(s))) << " expected " << show(wa)); VP_CHECK(c, match(pts(std::get<1>(s)), wb, ex), "split-second", "gives " << show(pts(std::get<1>(s))) << " expected " << show(wb));
}
VP_ASPECT(position, 400000, 12000000, "polyline and a position along it, or a lattice point on or off it; non-trivial: position at a vertex or in a later segment") {
    I m = c.pick<I>({3, 2, 5, 8, 20, 100}); Path p(chain(c, m)); bool av; double l = position(c, p, av); L2 L = Pl(p.g); LD T = p.total(); V q = gx::probe(c, p.g, m); VP_NOTE(c, "polyline " << p.g << " position " << std::setprecision(17) << l << " of " << (double)T << " point " << q); if (av || l > p.cum[1]) c.nontrivial();
    auto mp = polyline_mid_point(L); auto w = p.at(T / 2); VP_CHECK(c, std::hypot(mp[0] - (double)w.first, mp[1] - (double)w.second) <= 1e-7, "mid_point", "(" << mp[0] << "," << mp[1] << ") expected (" << (double)w.first << "," << (double)w.second << ")");
    if (l < T - 1e-9L) { auto r = polyline_point_at_position(L, l); std::size_t i = std::get<0>(r); VP_CHECK(c, i + 1 < p.g.size() && p.cum[i] <= l + 1e-9L && l <= p.cum[i + 1] + 1e-9L, "point_at_position-index", "segment " << i); w = p.at(l); double x, y; if (std::get<1>(r)) { x = (*std::get<1>(r))[0]; y = (*std::get<1>(r))[1]; } else { x = (double)p.g[i].x; y = (double)p.g[i].y; } VP_CHECK(c, std::hypot(x - (double)w.first, y - (double)w.second) <= 1e-7, "point_at_position", "(" << x << "," << y << ") expected (" << (double)w.first << "," << (double)w.second << ")"); }
    auto cl = polyline_segment_lengths(L); bool ok = cl.size() + 1 == p.cum.size(); for (std::size_t i = 0; ok && i < cl.size(); ++i) ok = gx::close(cl[i], p.cum[i + 1]); VP_CHECK(c, ok, "segment_lengths", "not the cumulative lengths");
    auto cc = polyline_segment_lengths(L, l); std::size_t k = 0; while (k < cl.size() && !(cl[k] > l)) ++k; std::size_t want = std::min(k + 1, cl.size()); VP_CHECK(c, cc.size() == want, "segment_lengths-cutoff", cc.size() << " lengths expected " << want);
    std::size_t on = p.g.size(); for (std::size_t i = p.g.size() - 1; i-- > 0;) if (gx::on_seg(p.g[i], p.g[i + 1], q)) on = i; auto ch = point_on_polyline_length_characteristics(L, P(q), cmp()); double a = std::get<0>(ch).value(), b = std::get<1>(ch).value(); std::size_t idx = std::get<2>(ch).value();
    if (on < p.g.size()) { V d = q - p.g[on]; LD s = p.cum[on] + sqrtl((LD)gx::dot(d, d)); VP_CHECK(c, idx == on, "length_characteristics-index", "segment " << idx << " expected " << on); VP_CHECK(c, gx::close(a, s) && gx::close(b, T - s), "length_characteristics", a << " and " << b << " expected " << (double)s << " and " << (double)(T - s)); } else VP_CHECK(c, idx == std::numeric_limits<std::size_t>::max(), "length_characteristics-off", "segment " << idx << " for a point off the polyline");
}
VP_ASPECT(subsequence, 300000, 8000000, "ring, lattice or fractional point on its border, extent up to half the perimeter; non-trivial: the part wraps around the start vertex") {
    I m = c.pick<I>({3, 2, 5, 8, 20, 100}); Poly g = gx::rotate_start(c, gx::gen_simple(c, m, 10)); if (c.chance(1, 2)) std::reverse(g.begin(), g.end()); Poly r3; for (int k = 0; k < 3; ++k) for (auto v : g) r3.push_back(v); r3.push_back(g[0]); Path p(r3); LD per = p.total() / 3; std::size_t i = (std::size_t)c.draw(g.size()); int fr = (int)c.draw(5); V a = g[i], b = g[(i + 1) % g.size()]; double f = fr / 4.0; P2 q((double)a.x + f * (double)(b.x - a.x), (double)a.y + f * (double)(b.y - a.y)); V d = b - a; LD s = p.cum[g.size() + i] + f * sqrtl((LD)gx::dot(d, d));
    double ext = c.chance(1, 4) ? (double)(fr < 4 ? (1 - f) * sqrtl((LD)gx::dot(d, d)) : per / 4) : (double)per * (double)c.range(1, 32) / 64.0; VP_NOTE(c, "polygon " << g << " point " << sh(q) << " extent " << ext); if (s - ext < p.cum[g.size()] || s + ext > p.cum[2 * g.size()]) c.nontrivial();
    auto r = polygon_subsequence(Pg(g), q, ext, cmp()); Pts want = p.sub(s - ext, s + ext); if (fr != 0 && fr != 4) { } Pts got = pts(r); VP_CHECK(c, same(tidy(got), tidy(want)), "polygon_subsequence", "gives " << show(got) << " expected " << show(want));
}
VP_ASPECT(curvature, 400000, 10000000, "polyline whose consecutive triples are distinct; non-trivial: turns in both directions") {
    I m = c.pick<I>({3, 2, 5, 8, 20, 100}); Poly g = chain(c, m); for (std::size_t i = 0; i + 2 < g.size(); ++i) if (g[i] == g[i + 2]) g[i + 2] = g[i + 2] + V(0, g[i + 1] == g[i + 2] + V(0, 1) ? -1 : 1); for (std::size_t i = 0; i + 1 < g.size(); ++i) if (g[i] == g[i + 1] || (i + 2 < g.size() && g[i] == g[i + 2])) { c.discard(); return; }
    std::size_t n = g.size(); VP_NOTE(c, "polyline " << g); L2 L = Pl(g); bool l = false, r = false; std::vector<int> sg(n, 1); std::vector<LD> over(n, 0); LD tot = 0, ab = 0;
    for (std::size_t j = 0; j < n; ++j) { LD k = 0; if (j > 0 && j + 1 < n) { V u = g[j] - g[j - 1], v = g[j + 1] - g[j], w = g[j + 1] - g[j - 1]; LD A = sqrtl((LD)gx::dot(u, u)), B = sqrtl((LD)gx::dot(v, v)), C = sqrtl((LD)gx::dot(w, w)); I x = gx::cross(u, v); k = 2 * (LD)x / (A * B * C); if (x < 0) { sg[j] = -1; r = true; } if (x > 0) l = true; over[j] = (A + B) / 2 * fabsl(k); tot += (A + B) / 2 * k; ab += over[j]; }
        VP_CHECK(c, gx::close(polyline_signed_curvature_at_index(L, j), k), "signed_curvature", "vertex " << j << ": " << polyline_signed_curvature_at_index(L, j) << " expected " << (double)k); VP_CHECK(c, gx::close(polyline_total_curvature_over_index(L, j), over[j]), "curvature_over_index", "vertex " << j); }
    if (l && r) c.nontrivial(); VP_CHECK(c, gx::close(polyline_total_curvature(L), tot), "total_curvature", polyline_total_curvature(L) << " expected " << (double)tot); VP_CHECK(c, gx::close(polyline_total_absolute_curvature(L), ab), "total_absolute_curvature", polyline_total_absolute_curvature(L) << " expected " << (double)ab);
    std::vector<std::size_t> inf; for (std::size_t j = 1; j < n; ++j) if (sg[j] != sg[j - 1]) inf.push_back(j); VP_CHECK(c, inflection_points(L) == inf, "inflection_points", "wrong indices");
    auto joined = [&](const std::vector<L2>& v, const char* t) { Pts q; for (auto& x : v) { VP_CHECK(c, x.size() > 1, std::string(t) + "-size", "piece of fewer than two points"); Pts y = pts(x); if (!q.empty()) { VP_CHECK(c, q.back() == y.front(), std::string(t) + "-joint", "pieces do not share a joint"); y.erase(y.begin()); } q.insert(q.end(), y.begin(), y.end()); } VP_CHECK(c, q == pts(L), t, "the pieces do not make up the polyline"); };
    auto si = split_polyline_by_inflection_points(L); joined(si, "split_by_inflection"); VP_CHECK(c, si.size() == inf.size() + 1 - (inf.size() && inf.back() == n - 1 ? 1 : 0), "split_by_inflection-count", si.size() << " pieces for " << inf.size() << " inflections");
    double ks = (double)c.range(0, 40) / 8.0 + 0.0123; auto sk = split_by_total_curvature(L, ks); joined(sk, "split_by_total_curvature"); std::vector<std::size_t> cut; LD acc = 0; bool amb = false; for (std::size_t j = 1; j + 1 < n; ++j) { acc += over[j]; if (fabsl(acc - ks) < 1e-9L) amb = true; if (acc > ks) { cut.push_back(j); acc = 0; } } if (!amb) { bool ok = sk.size() == cut.size() + 1; std::size_t at = 0; for (std::size_t i = 0; ok && i < cut.size(); ++i) { at += sk[i].size() - 1; ok = at == cut[i]; } VP_CHECK(c, ok, "split_by_total_curvature-cuts", "not cut where the accumulated curvature exceeds " << ks); }
}
