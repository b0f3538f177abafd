// P24: grid traits (indexing, cells), dense and hashed grids against a map model.
#include "gl.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/grid_2d.hpp>
#include <geometrix/algorithm/hash_grid_2d.hpp>
#include <map>
using namespace geometrix; using namespace gl; using vp::Case;
typedef grid_traits<double> T; typedef boost::uint32_t U;
static I fdiv(I a, I b) { I q = a / b; return (a % b && ((a < 0) != (b < 0))) ? q - 1 : q; }
struct G { I C, x0, x1, y0, y1; double s; bool dyadic; T traits(bool tuple = false) const { return tuple ? T(std::make_tuple(x0 * s, x1 * s, y0 * s, y1 * s), (double)C * s) : T(x0 * s, x1 * s, y0 * s, y1 * s, (double)C * s); } };
static std::ostream& operator<<(std::ostream& o, const G& g) { return o << "grid [" << g.x0 << "," << g.x1 << "]x[" << g.y0 << "," << g.y1 << "] cell " << g.C << " scale " << g.s; }
static G gen(Case& c, I most, int huge = 0) { G g; g.dyadic = c.chance(3, 4); g.C = g.dyadic ? c.pick<I>({1, 2, 4, 8, 16}) : c.pick<I>({3, 5, 7, 10, 49, 100}); g.s = g.dyadic ? c.pick<double>({1, 0.5, 0.125, 64}) : c.pick<double>({1, 0.1, 1.0 / 3}); I w = c.range(1, most * g.C), h = c.chance(1, 3) ? c.range(1, 3) * g.C : c.range(1, most * g.C); if (c.chance(1, 3)) w = (w + g.C - 1) / g.C * g.C; if (huge && c.chance(1, 30)) { I e = c.pick<I>({300, 5000, 70000}); e = c.range(1, e) * c.pick<I>({1, 1, 16}) * g.C; if (huge == 1) e = std::min<I>(e, 40000); (c.chance(1, 2) ? w : h) += e; if (huge == 2 && c.chance(1, 2)) { w += c.range(1, 70000) * g.C; h += c.range(1, 70000) * g.C; } } g.x0 = c.around(40); g.y0 = c.around(40); g.x1 = g.x0 + w; g.y1 = g.y0 + h; return g; }
VP_ASPECT(cells, 1200000, 10000000, "grid bounds on an integer lattice, cell sizes dyadic (exact) or not, points on cell borders, bounds or anywhere; non-trivial: point on a border between cells, or bounds not a multiple of the cell") {
    G g = gen(c, 12, 2); T t = g.traits(c.chance(1, 2)); bool lattice = c.chance(2, 3); I px, py; double x, y;
    if (lattice) { auto co = [&](I a, I b) { switch (c.draw(4)) { case 0: return c.range(a, b); case 1: return std::min(b, a + c.range(0, (b - a) / g.C) * g.C); case 2: return a; default: return b; } }; px = co(g.x0, g.x1); py = co(g.y0, g.y1); x = px * g.s; y = py * g.s; } else { px = py = 0; x = g.x0 * g.s + c.real(0, 1) * ((g.x1 - g.x0) * g.s); y = g.y0 * g.s + c.real(0, 1) * ((g.y1 - g.y0) * g.s); x = std::min(x, g.x1 * g.s); y = std::min(y, g.y1 * g.s); }
    VP_NOTE(c, g << " point " << x << "," << y); double w = g.C * g.s, tol = 1e-12 * (std::fabs(x) + std::fabs(y) + 200 * w + std::fabs(g.x1 * g.s) + std::fabs(g.y1 * g.s)); if ((lattice && ((px - g.x0) % g.C == 0 || (py - g.y0) % g.C == 0)) || (g.x1 - g.x0) % g.C) c.nontrivial();
    U W = t.get_width(), H = t.get_height(), i = t.get_x_index(x), j = t.get_y_index(y);
    VP_CHECK(c, t.get_min_x() == g.x0 * g.s && t.get_max_x() == g.x1 * g.s && t.get_min_y() == g.y0 * g.s && t.get_max_y() == g.y1 * g.s && t.get_cell_size() == w, "bounds", "bounds not kept");
    VP_CHECK(c, t.get_origin()[0] == g.x0 * g.s && t.get_origin()[1] == g.y0 * g.s, "origin", "origin " << sh(t.get_origin()));
    VP_CHECK(c, i < W && j < H, "index-range", "index " << i << "," << j << " in " << W << "x" << H);
    if (g.dyadic) { VP_CHECK(c, (I)W == (g.x1 - g.x0) / g.C + 1 && (I)H == (g.y1 - g.y0) / g.C + 1, "size", W << "x" << H); if (lattice) VP_CHECK(c, (I)i == fdiv(px - g.x0, g.C) && (I)j == fdiv(py - g.y0, g.C), "index", i << "," << j); }
    VP_CHECK(c, (W - 1) * w <= (g.x1 - g.x0) * g.s + tol && W * w >= (g.x1 - g.x0) * g.s - tol && (H - 1) * w <= (g.y1 - g.y0) * g.s + tol && H * w >= (g.y1 - g.y0) * g.s - tol, "covers", W << "x" << H);
    VP_CHECK(c, t.is_contained(P2(x, y)), "is_contained", "point inside the bounds"); { double ex = c.pick<double>({1, 1e-9, 50}) * (1 + std::fabs(x)), ey = c.pick<double>({1, 1e-9, 50}) * (1 + std::fabs(y)); VP_CHECK(c, !t.is_contained(P2(g.x0 * g.s - ex, y)) && !t.is_contained(P2(g.x1 * g.s + std::max(ex, 1e-9 * 200), y)) && !t.is_contained(P2(x, g.y0 * g.s - ey)) && !t.is_contained(P2(x, g.y1 * g.s + std::max(ey, 2e-7))), "is_contained-outside", "accepts a point outside"); }
    VP_CHECK(c, std::fabs(t.get_scaled_grid_coordinate_x(x) * w + g.x0 * g.s - x) <= tol && std::fabs(t.get_scaled_grid_coordinate_y(y) * w + g.y0 * g.s - y) <= tol && (U)t.get_scaled_grid_coordinate_x(x) == i && (U)t.get_scaled_grid_coordinate_y(y) == j, "scaled", t.get_scaled_grid_coordinate_x(x) << "," << t.get_scaled_grid_coordinate_y(y));
    auto box = t.get_cell_aabb(i, j); P2 lo = box.get_lower_bound(), hi = box.get_upper_bound();
    VP_CHECK(c, lo[0] - tol <= x && x <= hi[0] + tol && lo[1] - tol <= y && y <= hi[1] + tol, "cell-contains", "cell " << i << "," << j << " is " << sh(lo) << sh(hi));
    U a = (U)c.draw(W), b = (U)c.draw(H); double ex = g.x0 * g.s + a * w, ey = g.y0 * g.s + b * w; box = t.get_cell_aabb(a, b); lo = box.get_lower_bound(); hi = box.get_upper_bound(); auto pg = t.get_cell_polygon(a, b); P2 q[4] = {t.get_cell_corner0(a, b), t.get_cell_corner1(a, b), t.get_cell_corner2(a, b), t.get_cell_corner3(a, b)}; P2 want[4] = {P2(ex, ey), P2(ex + w, ey), P2(ex + w, ey + w), P2(ex, ey + w)};
    VP_CHECK(c, pg.size() == 4 && dist(lo, want[0]) <= tol && dist(hi, want[2]) <= tol, "cell-box", "cell " << a << "," << b << " box " << sh(lo) << sh(hi)); for (int k = 0; k < 4; ++k) { VP_CHECK(c, dist(q[k], want[k]) <= tol, "corner", "corner " << k << " of " << a << "," << b << " is " << sh(q[k])); VP_CHECK(c, dist(pg[k], want[k]) <= tol, "cell-polygon", "vertex " << k << " of " << a << "," << b << " is " << sh(pg[k])); }
    P2 m = t.get_cell_centroid(a, b); VP_CHECK(c, dist(m, P2(ex + w / 2, ey + w / 2)) <= tol, "centroid", sh(m)); if (t.is_contained(m)) VP_CHECK(c, t.get_x_index(m[0]) == a && t.get_y_index(m[1]) == b, "centroid-index", "centroid of " << a << "," << b << " maps to " << t.get_x_index(m[0]) << "," << t.get_y_index(m[1]));
    VP_CHECK(c, dist(t.get_cell_corner0(a + 1, b), q[1]) == 0 && dist(t.get_cell_corner0(a + 1, b + 1), q[2]) == 0 && dist(t.get_cell_corner0(a, b + 1), q[3]) == 0, "tiling", "neighbouring cells do not share their corners");
}
typedef std::pair<U, U> K;
static P2 in_cell(Case& c, const G& g, K k) { auto co = [&](I lo, I hi, U n) { double a = lo * g.s + n * (g.C * g.s), f = c.pick<double>({0.5, 0.25, 0.75, 0.01, 0.99}); if (g.dyadic && c.chance(1, 3)) f = 0; return std::min(a + f * g.C * g.s, hi * g.s); }; double x = co(g.x0, g.x1, k.first), y = co(g.y0, g.y1, k.second); return P2(x, y); }
static K cell_of(const G& g, P2 p) { return K((U)std::floor((p[0] - g.x0 * g.s) / (g.C * g.s)), (U)std::floor((p[1] - g.y0 * g.s) / (g.C * g.s))); }
VP_ASPECT(dense, 400000, 3000000, "histories of writes and reads of a dense grid by index and by point; non-trivial: a cell written by one way is read by the other") {
    G g = gen(c, 8, 1); g.dyadic = true; g.C = 4; g.s = 0.5; T t = g.traits(); grid_2d<int, T> d(t); const grid_2d<int, T>& cd = d; std::map<K, int> m; std::map<K, int> how; int n = (int)c.range(1, 40); VP_NOTE(c, g << " " << n << " operations");
    for (int k = 0; k < n; ++k) { K key((U)c.draw(t.get_width()), (U)c.draw(t.get_height())); bool byp = c.chance(1, 2); P2 p = in_cell(c, g, key); if (byp) key = cell_of(g, p); bool wr = c.chance(1, 2); VP_NOTE(c, (wr ? " write " : " read ") << key.first << "," << key.second << (byp ? " by point" : ""));
        if (wr) { int v = (int)c.range(1, 1000); (byp ? d.get_cell(p) : d.get_cell(key.first, key.second)) = v; m[key] = v; how[key] = byp; } else { if (m.count(key) && how[key] != byp) c.nontrivial(); int e = m.count(key) ? m[key] : 0, r = byp ? cd.get_cell(p) : cd.get_cell(key.first, key.second), r2 = byp ? d.get_cell(p) : d.get_cell(key.first, key.second); VP_CHECK(c, r == e && r2 == e, "dense-read", "reads " << r << ", expected " << e); } }
    for (U i = 0; i < t.get_width(); ++i) for (U j = 0; j < t.get_height(); ++j) { int e = m.count(K(i, j)) ? m[K(i, j)] : 0; VP_CHECK(c, cd.get_cell(i, j) == e, "dense-final", "cell " << i << "," << j << " holds " << cd.get_cell(i, j) << ", expected " << e); }
    VP_CHECK(c, d.get_traits().get_width() == t.get_width() && d.is_contained(in_cell(c, g, K(0, 0))) && !d.is_contained(P2(g.x0 * g.s - 1, g.y0 * g.s)), "dense-traits", "traits not kept");
}
VP_ASPECT(hashed, 400000, 3000000, "histories of find, get, write, erase, clear and move of a hashed grid by index and by point; non-trivial: an erase or clear followed by a lookup of the same cell") {
    G g = gen(c, 3, 2); g.dyadic = true; g.C = 4; g.s = 0.5; T t = g.traits(); typedef hash_grid_2d<std::vector<int>, T> HG; HG d(t); std::map<K, std::vector<int>> m; std::set<K> gone; std::vector<K> used; int n = (int)c.range(1, 60); VP_NOTE(c, g << " " << n << " operations");
    for (int k = 0; k < n; ++k) { K key((U)c.draw(t.get_width()), (U)c.draw(t.get_height())); if (!used.empty() && (I)t.get_width() * t.get_height() > 4000 && c.chance(3, 4)) { K q = used[c.draw(used.size())]; switch (c.draw(7)) { case 0: break; case 1: q = K(q.second, q.first); break; case 2: q = K(q.first + 1, q.second); break; case 3: q = K(q.first, q.second + 1); break; case 4: q = K(q.first & 0xff, q.second); break; case 5: q = K(q.first & 0xffff, q.second & 0xffff); break; default: q = K(q.first ? q.first - 1 : 0, q.second + 1); } key = K(std::min<U>(q.first, t.get_width() - 1), std::min<U>(q.second, t.get_height() - 1)); } bool byp = c.chance(1, 2); P2 p = in_cell(c, g, key); if (byp) key = cell_of(g, p); used.push_back(key); int op = (int)c.draw(12); VP_NOTE(c, " op" << op << " " << key.first << "," << key.second << (byp ? " by point" : ""));
        if (op < 4) { const HG& cd = d; const std::vector<int>* f = byp ? (c.chance(1, 2) ? cd.find_cell(p) : d.find_cell(p)) : (c.chance(1, 2) ? cd.find_cell(key.first, key.second) : d.find_cell(key.first, key.second)); if (gone.count(key)) c.nontrivial(); auto it = m.find(key); VP_CHECK(c, (f != nullptr) == (it != m.end()), "hash-find", (f ? "finds" : "does not find") << " cell " << key.first << "," << key.second); if (f) VP_CHECK(c, *f == it->second, "hash-content", "content of " << key.first << "," << key.second); }
        else if (op < 9) { std::vector<int>& r = byp ? d.get_cell(p) : d.get_cell(key.first, key.second); VP_CHECK(c, r == m[key], "hash-get", "content of " << key.first << "," << key.second); int v = (int)c.range(0, 99); r.push_back(v); m[key].push_back(v); gone.erase(key); }
        else if (op < 11) { d.erase(key.first, key.second); if (m.erase(key)) gone.insert(key); }
        else if (c.chance(1, 2)) { d.clear(); for (auto& e : m) gone.insert(e.first); m.clear(); }
        else { HG o(std::move(d)); HG z(t); z.get_cell(0, 0).push_back(7); z = std::move(o); d = std::move(z); VP_CHECK(c, d.get_traits().get_width() == t.get_width() && d.get_traits().get_height() == t.get_height(), "hash-move", "traits lost"); } }
    std::set<K> at; if ((I)t.get_width() * t.get_height() <= 4000) for (U i = 0; i < t.get_width(); ++i) for (U j = 0; j < t.get_height(); ++j) at.insert(K(i, j)); else { for (auto& e : m) at.insert(e.first); for (auto& e : gone) at.insert(e); for (auto e : std::set<K>(at)) { at.insert(K(e.second, e.first)); at.insert(K(e.first & 0xffff, e.second)); at.insert(K(e.first, e.second & 0xff)); if (e.first) at.insert(K(e.first - 1, e.second)); if (e.second) at.insert(K(e.first, e.second - 1)); } }
    for (auto& ij : at) { U i = ij.first, j = ij.second; if (i >= t.get_width() || j >= t.get_height()) continue; auto it = m.find(K(i, j)); auto f = d.find_cell(i, j); VP_CHECK(c, (f != nullptr) == (it != m.end()) && (!f || *f == it->second), "hash-final", "cell " << i << "," << j); }
}
