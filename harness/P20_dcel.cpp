// P20: edge lists chained back into the polylines and polygons they came from.
#include "gl.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/doubly_connected_edge_list.hpp>
#include <set>
using namespace geometrix; using namespace gl; using vp::Case;
typedef absolute_tolerance_comparison_policy<double> Cmp; typedef doubly_connected_edge_list<P2, Cmp> D;
struct Chain { Poly p; bool closed; };
// disjoint chains over distinct lattice points, no shape implied
static std::vector<Chain> chains(Case& c) { bool big = c.chance(1, 400); std::vector<V> pts; I m = big ? 30 : c.pick<I>({2, 4, 8}); std::set<V> seen; int n = big ? (int)c.range(60, 400) : (int)c.range(2, 24); for (int i = 0; i < n; ++i) { V v(c.around(m), c.around(m)); if (seen.insert(v).second) pts.push_back(v); } std::vector<Chain> r; std::size_t k = 0; while (k + 2 <= pts.size()) { Chain ch; ch.closed = c.chance(1, 2); std::size_t len = (std::size_t)c.range(2, big ? 150 : 7); len = std::min(len, pts.size() - k); for (std::size_t i = 0; i < len; ++i) ch.p.push_back(pts[k + i]); k += len; r.push_back(ch); } return r; }
struct Ed { V a, b; }; static std::vector<Ed> edges(const Chain& ch) { std::vector<Ed> e; for (std::size_t i = 0; i + 1 < ch.p.size(); ++i) e.push_back(Ed{ch.p[i], ch.p[i + 1]}); if (ch.closed) e.push_back(Ed{ch.p.back(), ch.p[0]}); return e; }
template <typename T> static Poly back(const T& seq, double sc) { Poly r; for (auto& q : seq) r.push_back(V((I)std::llround(q[0] / sc), (I)std::llround(q[1] / sc))); return r; }
static Poly canon(Poly p) { std::rotate(p.begin(), std::min_element(p.begin(), p.end()), p.end()); return p; }
static void compare(Case& c, const std::vector<Chain>& want, const D& d, double sc, const char* who) { std::multiset<Poly> wp, wl, gp, gl_; for (auto& ch : want) if (ch.closed) wp.insert(canon(ch.p)); else wl.insert(ch.p); for (auto& p : d.get_polygons()) gp.insert(canon(back(p, sc))); for (auto& p : d.get_polylines()) gl_.insert(back(p, sc)); auto show = [](const std::multiset<Poly>& s) { std::ostringstream o; for (auto& p : s) o << p << " "; return o.str(); }; VP_CHECK(c, wp == gp, "dcel-polygons", who << " has polygons " << show(gp) << "expected " << show(wp)); VP_CHECK(c, wl == gl_, "dcel-polylines", who << " has polylines " << show(gl_) << "expected " << show(wl)); }
static std::string show(const std::vector<Ed>& e) { std::ostringstream o; for (auto& x : e) o << x.a << x.b << " "; return o.str(); }
VP_ASPECT(chain, 150000, 5000000, "disjoint open and closed chains of up to seven vertices, edges shuffled, end points jittered below the tolerance; non-trivial: at least two chains of which one is closed, edges out of order") {
    auto ch = chains(c); if (ch.empty()) { c.discard(); return; } std::vector<Ed> e; bool any = false; for (auto& x : ch) { auto y = edges(x); e.insert(e.end(), y.begin(), y.end()); any = any || x.closed; } bool sh_ = false; for (std::size_t i = e.size(); i > 1; --i) if (c.chance(1, 2)) { std::swap(e[i - 1], e[(std::size_t)c.draw(i)]); sh_ = true; } if (ch.size() > 1 && any && sh_) c.nontrivial(); double sc = c.pick<double>({1, 0.5, 0.1, 100}); double jit = c.chance(1, 3) ? 1e-12 : 0; VP_NOTE(c, "edges " << show(e) << "scale " << sc << " jitter " << jit);
    std::vector<S2> s; for (auto& x : e) { S2 g = Seg(x.a, x.b, sc); if (jit > 0) g = S2(P2(g.get_start()[0] + jit * c.around(1), g.get_start()[1]), P2(g.get_end()[0], g.get_end()[1] + jit * c.around(1))); s.push_back(g); }
    D d = make_dcel<P2>(s, cmp()); compare(c, ch, d, sc, "the list"); std::size_t n = 0; for (auto& p : d.get_polygons()) n += p.size(); for (auto& p : d.get_polylines()) n += p.size(); std::size_t w = 0; for (auto& x : ch) w += x.p.size(); VP_CHECK(c, n == w, "dcel-vertices", n << " vertices in the results, " << w << " in the edges");
}
VP_ASPECT(steps, 60000, 2000000, "edges added one by one, recomputing at random times, with copies, moves and assignments in between; non-trivial: edges were added to a copied or moved list") {
    auto ch = chains(c); if (ch.empty()) { c.discard(); return; } std::vector<std::pair<Ed, std::size_t>> e; for (std::size_t k = 0; k < ch.size(); ++k) for (auto& x : edges(ch[k])) e.push_back({x, k}); VP_NOTE(c, "chains"); for (auto& x : ch) VP_NOTE(c, " " << x.p << (x.closed ? "closed" : "")); std::unique_ptr<D> pd_(new D(cmp())); bool moved = false; std::size_t i = 0;
    for (std::size_t k = 0; k < ch.size(); ++k) { for (auto& x : edges(ch[k])) { if (i % 2) pd_->add_edge(P(x.a), P(x.b)); else pd_->add_edge(Seg(x.a, x.b)); ++i; if (moved) c.nontrivial(); } std::vector<Chain> sofar(ch.begin(), ch.begin() + (std::ptrdiff_t)k + 1); D& d = *pd_; switch (c.draw(6)) { case 1: { std::unique_ptr<D> o(new D(d)); d.calculate_point_sequences(); compare(c, sofar, d, 1, "the original"); pd_ = std::move(o); moved = true; VP_NOTE(c, " copy"); break; } case 2: { std::unique_ptr<D> o(new D(std::move(d))); pd_ = std::move(o); moved = true; VP_NOTE(c, " move"); break; } case 3: { std::unique_ptr<D> o(new D(cmp())); o->add_edge(P(V(99, 99)), P(V(98, 99))); if (c.chance(1, 2)) { *o = d; VP_NOTE(c, " assign"); } else { *o = std::move(d); VP_NOTE(c, " move-assign"); } pd_ = std::move(o); moved = true; break; } case 4: d.calculate_point_sequences(); compare(c, sofar, d, 1, "the list so far"); break; default: break; } }
    D& d = *pd_; d.calculate_point_sequences(); compare(c, ch, d, 1, "the list"); d.calculate_point_sequences(); compare(c, ch, d, 1, "the list recomputed"); D f(d); compare(c, ch, f, 1, "a copy"); D g(std::move(f)); compare(c, ch, g, 1, "a moved list");
}
// what a subset of the edges chains to: the maximal runs of each chain, closed only when complete
static std::vector<Chain> runs(const std::vector<Chain>& ch, const std::vector<std::vector<char>>& has) {
    std::vector<Chain> r; for (std::size_t k = 0; k < ch.size(); ++k) { auto& p = ch[k].p; std::size_t m = has[k].size(), n = p.size(); std::size_t cnt = (std::size_t)std::count(has[k].begin(), has[k].end(), 1); if (!cnt) continue; if (ch[k].closed && cnt == m) { r.push_back(ch[k]); continue; }
        for (std::size_t i = 0; i < m; ++i) { if (!has[k][i] || (i > 0 ? has[k][i - 1] : ch[k].closed && has[k][m - 1])) continue; Chain o; o.closed = false; o.p.push_back(p[i]); for (std::size_t j = i; o.p.size() <= m && has[k][j % m] && (ch[k].closed || j < m); ++j) o.p.push_back(p[(j + 1) % n]); r.push_back(o); } }
    return r; }
VP_ASPECT(edits, 60000, 2000000, "the edges of open and closed chains added one at a time in any order, the sequences recomputed after any of them; non-trivial: an edge added after a recomputation joined points that were all there already") {
    auto ch = chains(c); if (ch.empty()) { c.discard(); return; } struct Ref { std::size_t k, i; Ed e; }; std::vector<Ref> e; std::vector<std::vector<char>> has; for (std::size_t k = 0; k < ch.size(); ++k) { auto y = edges(ch[k]); has.push_back(std::vector<char>(y.size(), 0)); for (std::size_t i = 0; i < y.size(); ++i) e.push_back(Ref{k, i, y[i]}); }
    for (std::size_t i = e.size(); i > 1; --i) if (c.chance(2, 3)) std::swap(e[i - 1], e[(std::size_t)c.draw(i)]); D d(cmp()); std::set<V> seen; bool fresh = false; VP_NOTE(c, "edges"); for (auto& x : e) { VP_NOTE(c, " " << x.e.a << x.e.b); d.add_edge(P(x.e.a), P(x.e.b)); has[x.k][x.i] = 1; if (fresh && seen.count(x.e.a) && seen.count(x.e.b)) c.nontrivial(); seen.insert(x.e.a); seen.insert(x.e.b); fresh = false; if (c.chance(1, 2)) { VP_NOTE(c, " compute"); d.calculate_point_sequences(); compare(c, runs(ch, has), d, 1, "the list so far"); fresh = true; if (c.chance(1, 6)) { D o(d); compare(c, runs(ch, has), o, 1, "a copy so far"); if (c.chance(1, 2)) d = std::move(o); else { D q(cmp()); q.add_edge(P(V(77, 77)), P(V(78, 79))); q.calculate_point_sequences(); q = o; d = q; } VP_NOTE(c, " through a copy"); } } }
    d.calculate_point_sequences(); compare(c, ch, d, 1, "the list");
}
