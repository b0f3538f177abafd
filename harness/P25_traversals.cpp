// P25: cells of a grid visited along a segment or over a convex polygon (with convex holes).
#include "gl.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/hash_grid_2d.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/fast_voxel_grid_traversal.hpp>
#include <geometrix/algorithm/bresenham_grid_traversal.hpp>
#include <geometrix/algorithm/orientation_grid_traversal.hpp>
#include <geometrix/algorithm/floodfill_grid_traversal.hpp>
#include <map>
#include <set>
using namespace geometrix; using namespace gl; using vp::Case;
typedef grid_traits<double> T; typedef std::uint32_t U; typedef std::pair<I, I> K; typedef std::vector<K> Ks;
static I fdiv(I a, I b) { I q = a / b; return (a % b && ((a < 0) != (b < 0))) ? q - 1 : q; }
struct G { I C, x0, x1, y0, y1; double s; bool dyadic; T traits() const { return T(x0 * s, x1 * s, y0 * s, y1 * s, (double)C * s); } I nx() const { return (x1 - x0) / C + 1; } I ny() const { return (y1 - y0) / C + 1; } };
static std::ostream& operator<<(std::ostream& o, const G& g) { return o << "grid [" << g.x0 << "," << g.x1 << "]x[" << g.y0 << "," << g.y1 << "] cell " << g.C << " scale " << g.s; }
static std::ostream& operator<<(std::ostream& o, const Ks& k) { for (auto& e : k) o << "(" << e.first << "," << e.second << ")"; return o; }
static G gen(Case& c, I most) { G g; g.dyadic = c.chance(3, 4); g.C = g.dyadic ? c.pick<I>({2, 1, 4, 8}) : c.pick<I>({3, 5, 6, 7, 10}); g.s = g.dyadic ? c.pick<double>({1, 0.5, 0.125, 64}) : c.pick<double>({1, 0.1, 1.0 / 3}); g.x0 = c.chance(1, 2) ? 0 : c.around(20); g.y0 = c.chance(1, 2) ? 0 : c.around(20); g.x1 = g.x0 + c.range(1, most * g.C); g.y1 = g.y0 + c.range(1, most * g.C); if (c.chance(1, 40)) { bool w = c.chance(1, 2); (w ? g.x1 : g.y1) += c.range(1, 40) * c.pick<I>({1, 1, 8}) * g.C; if (c.chance(1, 3)) (w ? g.y1 : g.x1) += c.range(1, 40) * g.C; } return g; }
static I sz(Case& c, I lo, I hi) { return c.chance(1, 50) ? c.range(hi, 6 * hi) : c.range(lo, hi); }
struct R { Q lo, hi; bool open; R() : lo(0), hi(1), open(true) {} }; // parameter interval of a segment inside a box
static R clip(V a, V b, I x0, I y0, I x1, I y1, R r = R()) { V d = b - a; auto ax = [&](I p, I u, I l, I h) { if (u == 0) { if (p < l || p > h) r.hi = Q(-1); if (p <= l || p >= h) r.open = false; return; } Q s(l - p, u), t(h - p, u); if (u < 0) std::swap(s, t); if (r.lo < s) r.lo = s; if (t < r.hi) r.hi = t; }; ax(a.x, d.x, x0, x1); ax(a.y, d.y, y0, y1); return r; }
static bool meets(const R& r) { return r.lo <= r.hi; }
static bool inside(V a, V b, const R& r) { if (a == b) return r.open && meets(r); return r.open && r.lo < r.hi; }
static V bend(Case& c, const G& g, bool out) { I e = out ? 2 * g.C + 2 : 0; auto co = [&](I l, I h) { switch (c.draw(4)) { case 0: return l + c.range(0, (h - l) / g.C) * g.C; case 1: return c.chance(1, 2) ? l : h; default: return c.range(l - e, h + e); } }; I x = co(g.x0, g.x1), y = co(g.y0, g.y1); return V(x, y); }
static bool in(const G& g, V v) { return v.x >= g.x0 && v.x <= g.x1 && v.y >= g.y0 && v.y <= g.y1; }
static K cell(const G& g, V v) { return K(fdiv(v.x - g.x0, g.C), fdiv(v.y - g.y0, g.C)); }
static R in_cell(const G& g, K k, V a, V b) { return clip(a, b, g.x0 + k.first * g.C, g.y0 + k.second * g.C, g.x0 + (k.first + 1) * g.C, g.y0 + (k.second + 1) * g.C); }
static R both(R a, const R& b) { if (a.lo < b.lo) a.lo = b.lo; if (b.hi < a.hi) a.hi = b.hi; return a; }
static std::string judge(const G& g, V a, V b, const Ks& v, bool four, bool sorted) { // empty: the visited cells are right
    std::ostringstream o; R bounds; if (!in(g, a) || !in(g, b)) bounds = clip(a, b, g.x0, g.y0, g.x1, g.y1); if (!meets(bounds)) { if (!v.empty()) o << "visits " << v << " though the segment misses the grid"; return o.str(); }
    std::set<K> s(v.begin(), v.end()); if (s.size() != v.size()) { o << "visits a cell twice: " << v; return o.str(); }
    for (auto& k : v) { if (k.first < 0 || k.first >= g.nx() || k.second < 0 || k.second >= g.ny()) { o << "visits a cell outside the grid: " << v; return o.str(); } if (!meets(both(in_cell(g, k, a, b), bounds))) { o << "visits cell (" << k.first << "," << k.second << ") away from the segment: " << v; return o.str(); } }
    for (I i = 0; i < g.nx(); ++i) for (I j = 0; j < g.ny(); ++j) { R r = both(in_cell(g, K(i, j), a, b), bounds); if (inside(a, b, r) && !s.count(K(i, j))) { o << "misses cell (" << i << "," << j << "): " << v; return o.str(); } }
    if (a != b && bounds.lo == bounds.hi) return ""; // touches the bounds in one point
    if (v.empty()) { o << "visits nothing"; return o.str(); }
    for (std::size_t i = 0; i + 1 < v.size(); ++i) { I dx = std::abs(v[i].first - v[i + 1].first), dy = std::abs(v[i].second - v[i + 1].second); if (four ? dx + dy != 1 : std::max(dx, dy) != 1) { o << "jumps: " << v; return o.str(); } }
    if (sorted && b < a) { std::swap(a, b); std::swap(bounds.lo, bounds.hi); bounds.lo = Q(1) - bounds.lo; bounds.hi = Q(1) - bounds.hi; }
    R first = in_cell(g, v.front(), a, b), last = in_cell(g, v.back(), a, b); if (bounds.lo < first.lo || first.hi < bounds.lo) o << "first cell is not where the segment starts: " << v; else if (bounds.hi < last.lo || last.hi < bounds.hi) o << "last cell is not where the segment ends: " << v;
    else if (g.dyadic && in(g, a) && cell(g, a) != v.front()) o << "first cell is not the cell of the start: " << v; else if (g.dyadic && in(g, b) && cell(g, b) != v.back()) o << "last cell is not the cell of the end: " << v;
    return o.str(); }
struct Runaway {};
static void endpoints(Case& c, const G& g, V& a, V& b) { bool out = c.chance(1, 3); a = bend(c, g, out); switch (c.draw(5)) { case 0: { I dx = c.pick<I>({1, -1, 0, 1, -1}), dy = c.pick<I>({1, -1, 1, -1, 0}), n = c.range(1, c.chance(1, 4) ? std::max(g.x1 - g.x0, g.y1 - g.y0) : 8 * g.C); b = a + n * V(dx, dy); break; } case 1: b = a + V(c.around(g.C), c.around(8 * g.C)); break; default: b = bend(c, g, out); } if (!out && !in(g, b)) b = V(std::min(std::max(b.x, g.x0), g.x1), std::min(std::max(b.y, g.y0), g.y1)); }
VP_ASPECT(fast_voxel, 200000, 6000000, "lattice segments in or partly outside a grid, many through cell corners or along cell borders; non-trivial: more than two cells visited and the segment passes a cell corner or leaves the grid") {
    G g = gen(c, 7); V a, b; endpoints(c, g, a, b); T t = g.traits(); VP_NOTE(c, g << " segment " << a << b); Ks v; auto lim = [&](U i, U j) { v.push_back(K((std::int32_t)i, (std::int32_t)j)); if ((I)v.size() > 1000 + 2 * (g.nx() + g.ny())) throw Runaway(); }; bool ran = false; try { fast_voxel_grid_traversal(t, Seg(a, b, g.s), lim, cmp()); } catch (Runaway&) { ran = true; v.resize(10); }
    VP_CHECK(c, !ran, "fast_voxel-endless", "does not stop: " << v); std::string e = judge(g, a, b, v, true, false); VP_CHECK(c, e.empty(), "fast_voxel", e); if (v.size() > 2 && (!in(g, a) || !in(g, b) || std::abs(b.x - a.x) == std::abs(b.y - a.y))) c.nontrivial(); if (!in(g, a) || !in(g, b)) c.label("clipped");
    Ks w; std::size_t stop = (std::size_t)c.range(1, 12); ran = false; try { stoppable_fast_voxel_grid_traversal(t, Seg(a, b, g.s), [&](U i, U j) -> bool { w.push_back(K((std::int32_t)i, (std::int32_t)j)); if ((I)w.size() > 1000 + 2 * (g.nx() + g.ny())) throw Runaway(); return w.size() < stop; }, cmp()); } catch (Runaway&) { ran = true; w.resize(10); }
    Ks x(v.begin(), v.begin() + (std::ptrdiff_t)std::min(stop, v.size())); VP_CHECK(c, !ran && w == x, "stoppable", "stopping after " << stop << " visits " << w << ", all: " << v);
}
VP_ASPECT(nearly_vertical, 100000, 3000000, "segments whose one coordinate changes by less than the tolerance across a cell border, in any direction; non-trivial: three or more cells in the long direction") {
    G g = gen(c, 7); g.dyadic = true; g.C = c.pick<I>({2, 4}); g.s = c.pick<double>({1, 0.5}); g.x1 = g.x0 + 6 * g.C; g.y1 = g.y0 + 6 * g.C; T t = g.traits(); I k = c.range(1, 5), r = c.range(1, 6 * g.C - 1), r2 = c.range(1, 6 * g.C - 1); double bx = (g.x0 + k * g.C) * g.s, e1 = c.pick<double>({1, 1.0 / 3, 3}) * 1e-12, e2 = c.pick<double>({1, 1.0 / 7, 5}) * 1e-12; if (c.chance(1, 2)) { e1 = -e1; e2 = -e2; } bool tr = c.chance(1, 2); P2 a(bx - e1, (g.y0 + r) * g.s), b(bx + e2, (g.y0 + r2) * g.s); auto org = [&](const P2& p) { return P2(p[1] - g.y0 * g.s + g.x0 * g.s, p[0] - g.x0 * g.s + g.y0 * g.s); }; if (tr) { a = org(a); b = org(b); }
    VP_NOTE(c, g << " segment " << sh(a) << sh(b)); K s(t.get_x_index(a[0]), t.get_y_index(a[1])), e(t.get_x_index(b[0]), t.get_y_index(b[1])); if (std::abs(r - r2) > 2 * g.C) c.nontrivial(); bool fast = c.chance(1, 2); if (!fast && std::fabs(a[0] - b[0]) <= 1e-10 && std::fabs(a[1] - b[1]) <= 1e-10) fast = true; Ks v; bool ran = false; auto vis = [&](U i, U j) { v.push_back(K((std::int32_t)i, (std::int32_t)j)); if ((I)v.size() > 1000 + 2 * (g.nx() + g.ny())) throw Runaway(); }; c.label(fast ? "fast voxel" : "orientation");
    try { if (fast) fast_voxel_grid_traversal(t, S2(a, b), vis, cmp()); else orientation_segment_traversal(t, S2(a, b), vis, cmp()); } catch (Runaway&) { ran = true; v.resize(10); } VP_CHECK(c, !ran, "nearly-endless", "does not stop: " << v);
    std::set<I> along; bool close = !v.empty(); for (auto& q : v) { I u = tr ? q.first : q.second, w = tr ? q.second : q.first; along.insert(u); close = close && (w == k || w == k - 1); } I lo = std::min(r, r2) / g.C, hi = std::max(r, r2) / g.C; VP_CHECK(c, close && (I)along.size() == hi - lo + 1 && *along.begin() == lo && *along.rbegin() == hi, "nearly-cells", (fast ? "fast voxel" : "orientation") << " visits " << v); if (fast) VP_CHECK(c, v.front() == s && v.back() == e, "nearly-ends", "visits " << v);
}
VP_ASPECT(by_orientation, 200000, 6000000, "lattice segments in or partly outside a grid, traversed by corner orientation; non-trivial: downward slope, or passes a cell corner") {
    G g = gen(c, 7); g.dyadic = true; g.C = c.pick<I>({2, 1, 4, 8}); g.s = c.pick<double>({1, 0.5, 0.125}); V a, b; endpoints(c, g, a, b); T t = g.traits(); VP_NOTE(c, g << " segment " << a << b); Ks v; bool ran = false; auto vis = [&](U i, U j) { v.push_back(K((std::int32_t)i, (std::int32_t)j)); if ((I)v.size() > 1000 + 2 * (g.nx() + g.ny())) throw Runaway(); }; try { orientation_segment_traversal(t, Seg(a, b, g.s), vis, cmp()); } catch (Runaway&) { ran = true; v.resize(10); }
    VP_CHECK(c, !ran, "orientation-endless", "does not stop: " << v); std::string e = judge(g, a, b, v, false, true); VP_CHECK(c, e.empty(), "orientation", e); if ((b.x - a.x) * (b.y - a.y) < 0) c.nontrivial();
}
struct Rec { Ks v; void operator()(int i, int j) { v.push_back(K(i, j)); } };
VP_ASPECT(bresenham, 200000, 6000000, "pairs of points of a grid; non-trivial: neither axis-parallel nor diagonal") {
    G g = gen(c, 12); g.dyadic = true; g.C = c.pick<I>({1, 2, 4}); g.s = 0.5; V a = bend(c, g, false), b = c.chance(1, 6) ? a : bend(c, g, false); T t = g.traits(); VP_NOTE(c, g << " segment " << a << b); Rec r; bresenham_segment_traversal(t, Seg(a, b, g.s), r); const Ks& v = r.v; K s = cell(g, a), e = cell(g, b); I dx = e.first - s.first, dy = e.second - s.second, n = std::max(std::abs(dx), std::abs(dy)); if (dx && dy && std::abs(dx) != std::abs(dy)) c.nontrivial();
    VP_CHECK(c, (I)v.size() == n + 1 && v.front() == s && v.back() == e, "bresenham-ends", "visits " << v << " from " << s.first << "," << s.second << " to " << e.first << "," << e.second); for (std::size_t i = 0; i < v.size(); ++i) { I x = v[i].first - s.first, y = v[i].second - s.second; if (i) VP_CHECK(c, std::max(std::abs(v[i].first - v[i - 1].first), std::abs(v[i].second - v[i - 1].second)) == 1, "bresenham-jump", "visits " << v); VP_CHECK(c, 2 * std::abs(x * dy - y * dx) <= n, "bresenham-line", "cell " << v[i].first << "," << v[i].second << " more than half a cell off the line: " << v); }
}
static bool poly_box(const Poly& p, I x0, I y0, I x1, I y1, bool open) { // convex ccw polygon and box share a point (open: share interior)
    std::vector<V> ax{V(1, 0), V(0, 1)}; for (std::size_t i = 0; i < p.size(); ++i) { V d = p[(i + 1) % p.size()] - p[i]; ax.push_back(V(-d.y, d.x)); } V q[4] = {V(x0, y0), V(x1, y0), V(x1, y1), V(x0, y1)}; for (V n : ax) { I pl = INT64_MAX, ph = INT64_MIN, ql = pl, qh = ph; for (V v : p) { I k = gx::dot(n, v); pl = std::min(pl, k); ph = std::max(ph, k); } for (V v : q) { I k = gx::dot(n, v); ql = std::min(ql, k); qh = std::max(qh, k); } if (open ? (ph <= ql || qh <= pl) : (ph < ql || qh < pl)) return false; } return true; }
static bool box_in(const Poly& p, I x0, I y0, I x1, I y1, bool strictly) { for (V v : {V(x0, y0), V(x1, y0), V(x1, y1), V(x0, y1)}) { int l = gx::locate(p, v); if (l < 0 || (strictly && l == 0)) return false; } return true; }
static Poly convex_in(Case& c, I x0, I y0, I x1, I y1) { Poly p; if (x1 - x0 >= 16 && y1 - y0 >= 16 && c.chance(1, 12)) { int n = (int)c.range(20, 90); for (int i = 0; i < n; ++i) { double t = 6.283185307179586 * i / n; p.push_back(V((I)std::floor(.5 * (double)(x0 + x1) + .5 * (double)(x1 - x0) * std::cos(t)), (I)std::floor(.5 * (double)(y0 + y1) + .5 * (double)(y1 - y0) * std::sin(t)))); } } int n = (int)c.range(3, 8); if (p.empty()) for (int i = 0; i < n; ++i) { I x = c.chance(1, 5) ? (c.chance(1, 2) ? x0 : x1) : c.range(x0, x1), y = c.chance(1, 5) ? (c.chance(1, 2) ? y0 : y1) : c.range(y0, y1); p.push_back(V(x, y)); } p = gx::hull(p); if (p.size() < 3) p = Poly{V(x0, y0), V(x1, y0), V(x1, y1), V(x0, y1)}; return p; }
VP_ASPECT(fill, 60000, 2000000, "convex polygons in a grid, some with up to four disjoint convex holes, either winding; non-trivial: a cell strictly inside a hole, or holes sharing a column of cells") {
    G g = gen(c, 10); g.x1 = g.x0 + sz(c, 2, 10) * g.C; g.y1 = g.y0 + sz(c, 2, 10) * g.C; Poly o = c.chance(1, 2) ? Poly{V(g.x0, g.y0), V(g.x1, g.y0), V(g.x1, g.y1), V(g.x0, g.y1)} : convex_in(c, g.x0, g.y0, g.x1, g.y1); std::vector<Poly> h; bool tall = c.chance(1, 2); int nh = (int)c.draw(6);
    for (int k = 0; k < nh; ++k) { I w = c.range(1, std::max<I>(1, tall ? g.C : 4 * g.C)), t = c.range(1, 5 * g.C), x = c.range(g.x0, std::max(g.x0, g.x1 - w)), y = c.range(g.y0, std::max(g.y0, g.y1 - t)); Poly q = convex_in(c, x, y, x + w, y + t); bool ok = true; for (V v : q) ok = ok && gx::locate(o, v) > 0; for (auto& r : h) { for (std::size_t i = 0; ok && i < q.size(); ++i) for (std::size_t j = 0; ok && j < r.size(); ++j) ok = !gx::seg_seg(q[i], q[(i + 1) % q.size()], r[j], r[(j + 1) % r.size()]); ok = ok && gx::locate(r, q[0]) < 0 && gx::locate(q, r[0]) < 0; } if (ok) h.push_back(q); }
    std::ostringstream os; for (auto& r : h) os << r; VP_NOTE(c, g << " polygon " << o << " holes " << os.str()); Poly o2 = gx::rotate_start(c, o); if (c.chance(1, 2)) std::reverse(o2.begin(), o2.end()); T t = g.traits(); Ks v; auto vis = [&](U i, U j) { v.push_back(K((std::int32_t)i, (std::int32_t)j)); };
    if (h.empty() && c.chance(1, 2)) floodfill_grid_traversal(t, Pg(o2, g.s), vis, cmp()); else { polygon_with_holes<P2> p(Pg(o2, g.s)); for (auto r : h) { if (c.chance(1, 2)) std::reverse(r.begin(), r.end()); p.add_hole(Pg(r, g.s)); } floodfill_grid_traversal(t, p, vis, cmp()); }
    std::set<K> s(v.begin(), v.end()); VP_CHECK(c, s.size() == v.size(), "fill-twice", "visits a cell twice: " << v); for (auto& k : v) VP_CHECK(c, k.first >= 0 && k.first < g.nx() && k.second >= 0 && k.second < g.ny(), "fill-outside", "cell " << k.first << "," << k.second);
    for (I i = 0; i < g.nx(); ++i) for (I j = 0; j < g.ny(); ++j) { I x0 = g.x0 + i * g.C, y0 = g.y0 + j * g.C, x1 = x0 + g.C, y1 = y0 + g.C; bool must = poly_box(o, x0, y0, x1, y1, true), may = poly_box(o, x0, y0, x1, y1, false); for (auto& r : h) { if (box_in(r, x0, y0, x1, y1, false)) must = false; if (box_in(r, x0, y0, x1, y1, true)) { may = false; c.nontrivial(); } } bool is = s.count(K(i, j)) != 0; VP_CHECK(c, !must || is, "fill-misses", "misses cell " << i << "," << j); VP_CHECK(c, may || !is, "fill-extra", "visits cell " << i << "," << j << " outside the polygon or inside a hole"); }
    if (h.size() > 1) c.nontrivial();
}
VP_ASPECT(interior, 60000, 2000000, "borders of convex polygons with holes marked, then a free interior cell asked for before and after the cells between the borders are visited; non-trivial: holes leave no free cell, or share a column") {
    G g = gen(c, 8); g.x1 = g.x0 + sz(c, 1, 8) * g.C; g.y1 = g.y0 + sz(c, 1, 8) * g.C; Poly o = c.chance(1, 2) ? Poly{V(g.x0, g.y0), V(g.x1, g.y0), V(g.x1, g.y1), V(g.x0, g.y1)} : convex_in(c, g.x0, g.y0, g.x1, g.y1); std::vector<Poly> h; int nh = (int)c.draw(6); bool big = c.chance(1, 3); if (g.C >= 2 && g.x1 - g.x0 >= 2 * g.C && c.chance(1, 40)) { /* free cells at the far end of every column only */ g.y1 = g.y0 + c.range(10, 70) * g.C; o = Poly{V(g.x0, g.y0), V(g.x1, g.y0), V(g.x1, g.y1), V(g.x0, g.y1)}; nh = 0; h.push_back(Poly{V(g.x0 + 1, g.y0 + 1), V(g.x1 - 1, g.y0 + 1), V(g.x1 - 1, g.y1 - c.range(1, 3) * g.C), V(g.x0 + 1, g.y1 - c.range(1, 3) * g.C)}); h.back()[3].y = h.back()[2].y; }
    for (int k = 0; k < nh; ++k) { I x = c.range(g.x0, big ? std::min(g.x1, g.x0 + g.C) : g.x1), y = c.range(g.y0, big ? std::min(g.y1, g.y0 + g.C) : g.y1), x1 = big ? c.range(std::max(x, g.x1 - g.C), g.x1) : std::min(g.x1, x + c.range(1, 3 * g.C)), y1 = big ? c.range(std::max(y, g.y1 - g.C), g.y1) : std::min(g.y1, y + c.range(1, 4 * g.C)); if (x1 - x < 1 || y1 - y < 1) continue; Poly q = c.chance(1, 2) ? Poly{V(x, y), V(x1, y), V(x1, y1), V(x, y1)} : convex_in(c, x, y, x1, y1); bool ok = true; for (V v : q) ok = ok && gx::locate(o, v) > 0; for (auto& r : h) { for (std::size_t i = 0; ok && i < q.size(); ++i) for (std::size_t j = 0; ok && j < r.size(); ++j) ok = !gx::seg_seg(q[i], q[(i + 1) % q.size()], r[j], r[(j + 1) % r.size()]); ok = ok && gx::locate(r, q[0]) < 0 && gx::locate(q, r[0]) < 0; } if (ok) h.push_back(q); }
    std::ostringstream os; for (auto& r : h) os << r; VP_NOTE(c, g << " polygon " << o << " holes " << os.str()); T t = g.traits(); floodfill_grid_traversal_helper<T> f(t); Ks v; auto vis = [&](U i, U j) { v.push_back(K((std::int32_t)i, (std::int32_t)j)); }; const auto& cf = f;
    VP_CHECK(c, !cf.get_empty_interior(), "interior-unmarked", "there is an interior before any border"); f.mark_boundary(Pg(o, g.s), vis, cmp()); for (auto& r : h) f.mark_hole_boundary(Pg(r, g.s), vis, cmp()); std::set<K> wall(v.begin(), v.end()); VP_CHECK(c, wall.size() == v.size(), "mark-twice", "visits a cell twice: " << v); for (auto& k : wall) VP_CHECK(c, cf.get_color((U)k.first, (U)k.second) == f.BOUNDARY + 0, "mark-color", "cell " << k.first << "," << k.second << " is not a border cell");
    auto e = cf.get_empty_interior(); v.clear(); f.scan(vis); std::set<K> s(v.begin(), v.end()); VP_CHECK(c, s.size() == v.size(), "scan-twice", "visits a cell twice: " << v); for (auto& k : s) VP_CHECK(c, !wall.count(k), "scan-wall", "visits the border cell " << k.first << "," << k.second);
    if (e) { K k((std::int32_t)e->first, (std::int32_t)e->second); VP_CHECK(c, s.count(k) != 0, "interior-cell", "cell " << k.first << "," << k.second << " is not between the borders"); I x0 = g.x0 + k.first * g.C, y0 = g.y0 + k.second * g.C, x1 = x0 + g.C, y1 = y0 + g.C; bool free = box_in(o, x0, y0, x1, y1, false); for (auto& r : h) free = free && !poly_box(r, x0, y0, x1, y1, true); VP_CHECK(c, free, "interior-free", "cell " << k.first << "," << k.second << " is not inside the polygon and outside the holes"); }
    else { VP_CHECK(c, s.empty(), "interior-none", "no interior cell, but " << v << " are between the borders"); for (I i = 0; i < g.nx(); ++i) for (I j = 0; j < g.ny(); ++j) { I x0 = g.x0 + i * g.C, y0 = g.y0 + j * g.C, x1 = x0 + g.C, y1 = y0 + g.C; bool must = box_in(o, x0, y0, x1, y1, true); for (auto& r : h) must = must && !poly_box(r, x0, y0, x1, y1, false); VP_CHECK(c, !must, "interior-missed", "no interior cell, but cell " << i << "," << j << " is free"); } }
    if (h.size() > 1 || (!h.empty() && !e)) c.nontrivial();
}
VP_ASPECT(flood, 60000, 2000000, "floods from a sequence of seed cells after marking polygon borders; non-trivial: two floods in different components") {
    G g = gen(c, 8); g.C = 2; g.s = 1; g.dyadic = true; g.x1 = g.x0 + sz(c, 1, 8) * 2; g.y1 = g.y0 + sz(c, 1, 8) * 2; T t = g.traits(); floodfill_grid_traversal_helper<T> f(t); std::set<K> wall, seen; std::vector<K> now; auto vis = [&](U i, U j) { now.push_back(K((std::int32_t)i, (std::int32_t)j)); }; int n = (int)c.draw(3); VP_NOTE(c, g);
    for (int k = 0; k < n; ++k) { Poly p = convex_in(c, g.x0, g.y0, g.x1, g.y1); VP_NOTE(c, " wall " << p); f.mark_boundary(Pg(p, 1), vis, cmp()); for (std::size_t e = 0; e < p.size(); ++e) fast_voxel_grid_traversal(t, Seg(p[e], p[(e + 1) % p.size()]), [&](U i, U j) { wall.insert(K(i, j)); }, cmp()); } std::set<K> first(now.begin(), now.end()); VP_CHECK(c, first == wall && now.size() == wall.size(), "flood-walls", "marks " << now); seen = wall;
    int floods = (int)c.range(1, 4), fresh = 0; for (int k = 0; k < floods; ++k) { K s(c.draw((uint64_t)g.nx()), c.draw((uint64_t)g.ny())); VP_NOTE(c, " flood from " << s.first << "," << s.second); now.clear(); bool r; if (c.chance(1, 2)) r = f.traversal((U)s.first, (U)s.second, vis); else { P2 p = t.get_cell_corner0((U)s.first, (U)s.second); r = f.traversal(p, vis); } VP_CHECK(c, r == !wall.count(s), "flood-result", "returns " << r);
        std::set<K> comp; if (!wall.count(s)) { std::vector<K> st{s}; comp.insert(s); while (!st.empty()) { K q = st.back(); st.pop_back(); for (K d : {K(1, 0), K(-1, 0), K(0, 1), K(0, -1)}) { K z(q.first + d.first, q.second + d.second); if (z.first < 0 || z.first >= g.nx() || z.second < 0 || z.second >= g.ny() || wall.count(z) || !comp.insert(z).second) continue; st.push_back(z); } } }
        std::set<K> want; for (auto& q : comp) if (!seen.count(q)) want.insert(q); std::set<K> got(now.begin(), now.end()); VP_CHECK(c, got.size() == now.size() && got == want, "flood", "visits " << now << " instead of " << want.size() << " new cells"); seen.insert(want.begin(), want.end()); if (!want.empty()) ++fresh; }
    if (fresh > 1) c.nontrivial();
}
