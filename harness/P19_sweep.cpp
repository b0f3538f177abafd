// P19: Bentley-Ottmann sweep against exact all-pairs intersection.
#include "gl.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/arithmetic/vector.hpp>
#include <geometrix/algorithm/segment_intersection.hpp>
#include <geometrix/algorithm/bentley_ottmann_segment_intersection.hpp>
#include <geometrix/algorithm/bounding_box_intersection.hpp>
#include <map>
#include <set>
using namespace geometrix; using namespace gl; using vp::Case;
struct Sg { V a, b; }; typedef std::pair<Q, Q> QP; struct QLess { bool operator()(const QP& x, const QP& y) const { if (x.first < y.first) return true; if (y.first < x.first) return false; return x.second < y.second; } };
static QP qp(V v) { return QP(Q(v.x), Q(v.y)); }
// is the exact point on the segment
static bool on(const QP& p, const Sg& s) { Q ux(s.b.x - s.a.x), uy(s.b.y - s.a.y), wx = p.first - Q(s.a.x), wy = p.second - Q(s.a.y); if (!(ux * wy == uy * wx)) return false; Q d = wx * ux + wy * uy; return Q(0) <= d && d <= ux * ux + uy * uy; }
typedef std::map<QP, std::set<std::size_t>, QLess> Hits;
static Hits expect(const std::vector<Sg>& s) { Hits h; for (std::size_t i = 0; i < s.size(); ++i) for (std::size_t j = i + 1; j < s.size(); ++j) { V u = s[i].b - s[i].a, w = s[j].b - s[j].a; I den = gx::cross(u, w); if (den) { Q t(gx::cross(s[j].a - s[i].a, w), den), k(gx::cross(s[j].a - s[i].a, u), den); if (Q(0) <= t && t <= Q(1) && Q(0) <= k && k <= Q(1)) { QP p(Q(s[i].a.x) + t * Q(u.x), Q(s[i].a.y) + t * Q(u.y)); h[p]; } } else for (V v : {s[i].a, s[i].b, s[j].a, s[j].b}) if (gx::on_seg(s[i].a, s[i].b, v) && gx::on_seg(s[j].a, s[j].b, v)) h[qp(v)]; }
    for (auto& e : h) for (std::size_t i = 0; i < s.size(); ++i) if (on(e.first, s[i])) e.second.insert(i); return h; }
static std::pair<P2, P2> norm(const S2& s) { P2 a = s.get_start(), b = s.get_end(); if (b[0] < a[0] || (b[0] == a[0] && b[1] < a[1])) std::swap(a, b); return {a, b}; }
static void sweep(Case& c, const std::vector<Sg>& s, double sc) {
    std::vector<S2> in; for (auto& x : s) { in.push_back(Seg(x.a, x.b, sc)); } Hits want = expect(s); struct Ev { P2 p; std::vector<S2> segs; }; std::vector<Ev> got;
    bentley_ottmann_segment_intersection(in, [&](const P2& p, std::set<S2*>::const_iterator b, std::set<S2*>::const_iterator e) { Ev ev; ev.p = p; for (; b != e; ++b) ev.segs.push_back(**b); got.push_back(ev); if (got.size() > 20 * want.size() + 50) throw std::runtime_error("too many events reported"); }, cmp(1e-9));
    for (auto& e : want) if (e.second.size() > 2) { c.nontrivial(); c.label("three or more segments in a point"); }
    std::set<std::size_t> used; for (auto& e : want) { std::size_t hit = got.size(), n = 0; double x = e.first.first.dbl() * sc, y = e.first.second.dbl() * sc; for (std::size_t k = 0; k < got.size(); ++k) if (std::hypot(got[k].p[0] - x, got[k].p[1] - y) < 1e-7) { hit = k; ++n; } VP_CHECK(c, n != 0, "sweep-missed", "intersection at " << sh(P2(x, y)) << " of " << e.second.size() << " segments is not reported"); VP_CHECK(c, n == 1, "sweep-repeated", "intersection at " << sh(P2(x, y)) << " reported " << n << " times"); used.insert(hit);
        std::multiset<std::string> a, b; for (auto& z : got[hit].segs) { auto m = norm(z); std::ostringstream o; o << sh(m.first) << sh(m.second); a.insert(o.str()); } for (auto i : e.second) { auto m = norm(in[i]); std::ostringstream o; o << sh(m.first) << sh(m.second); b.insert(o.str()); } VP_CHECK(c, a == b, "sweep-segments", "at " << sh(P2(x, y)) << " " << a.size() << " segments reported, " << b.size() << " meet there"); }
    VP_CHECK(c, used.size() == got.size(), "sweep-extra", "reported " << got.size() << " points, the segments meet in " << want.size()); for (std::size_t k = 1; k < got.size(); ++k) VP_CHECK(c, got[k - 1].p[0] < got[k].p[0] + 1e-8, "sweep-order", "events are not in sweep order");
}
static std::string show(const std::vector<Sg>& s) { std::ostringstream o; for (auto& x : s) o << x.a << "-" << x.b << " "; return o.str(); }
static std::vector<Sg> general(Case& c, int most, I m) { int n = (int)c.range(2, most); std::vector<Sg> s; for (int i = 0; i < n; ++i) { V a(c.around(m), c.around(m)), b(c.around(m), c.around(m)); if (!s.empty()) switch (c.draw(6)) { case 1: a = s[(std::size_t)c.draw(s.size())].a; break; case 2: b = s[(std::size_t)c.draw(s.size())].b; break; case 3: { auto& o = s[(std::size_t)c.draw(s.size())]; V u = o.b - o.a; I g = std::__gcd(std::abs(u.x), std::abs(u.y)); V d(u.x / g, u.y / g); a = o.a + c.range(-1, g + 1) * d; if (c.chance(1, 2)) b = a + c.range(1, 3) * d; break; } default: break; } if (a == b) b = V(a.x + 1, a.y); if (c.chance(1, 5)) b = V(a.x, b.y); if (c.chance(1, 5)) b = V(b.x, a.y); if (a == b) b = V(a.x + 1, a.y); s.push_back(Sg{a, b}); } return s; }
VP_ASPECT(lattice, 120000, 4000000, "up to 14 segments on a small lattice, vertical, touching, overlapping, repeated; non-trivial: three or more meet in a point") { I m = c.pick<I>({3, 5, 9, 20}); auto s = general(c, 14, m); double sc = pick_scale(c, m); VP_NOTE(c, "segments " << show(s) << " scale " << sc); sweep(c, s, sc); }
VP_ASPECT(crowd, 6000, 100000, "20 to 60 segments, also pencils and grids with many pending crossings, and up to 350 short ones or a mesh of 80; non-trivial: three or more meet in a point") {
    std::vector<Sg> s; I m = c.pick<I>({10, 20, 40}); if (c.chance(1, 40)) { // many short ones, or a mesh
        I w = c.pick<I>({30, 100, 300}); int n = (int)c.range(60, 350); I L = c.pick<I>({2, 5, 10}); if (c.chance(1, 2)) for (int i = 0; i < n; ++i) { V a(c.around(w), c.around(w)), b = a + V(c.around(L), c.around(L)); if (!s.empty() && c.chance(1, 3)) { a = s[(std::size_t)c.draw(s.size())].b; b = a + V(c.around(L), c.around(L)); } if (a == b) b = V(a.x, a.y + 1); s.push_back(Sg{a, b}); } else { int k = (int)c.range(5, 40), l = (int)c.range(5, 40); for (int i = 0; i < k; ++i) s.push_back(Sg{V(-m, i - k / 2), V(m, i - k / 2)}); for (int i = 0; i < l; ++i) s.push_back(Sg{V(i - l / 2, -m), V(i - l / 2, m)}); } }
    else if (c.chance(1, 2)) { s = general(c, 40, m); auto t = general(c, 20, m); s.insert(s.end(), t.begin(), t.end()); } else { int n = (int)c.range(4, 25); for (int i = 0; i < n; ++i) s.push_back(Sg{V(-m, c.around(m)), V(m, c.around(m))}); int k = (int)c.range(0, 10); for (int i = 0; i < k; ++i) { I x = c.around(m); s.push_back(Sg{V(x, -m), V(c.chance(1, 2) ? x : c.around(m), m)}); } } VP_NOTE(c, "segments " << show(s)); sweep(c, s, 1);
}
VP_ASPECT(boxes, 150000, 5000000, "pairs of diagonals in any direction, integer and double coordinates; non-trivial: the boxes touch without overlapping") {
    I m = c.pick<I>({3, 1, 10}); V p[4]; for (auto& v : p) v = V(c.around(m), c.around(m)); double sc = c.pick<double>({1, 0.1, 1000}); VP_NOTE(c, "diagonals " << p[0] << p[1] << " " << p[2] << p[3] << " scale " << sc); auto gap = [](I a, I b, I u, I v) { return std::max(std::min(a, b), std::min(u, v)) - std::min(std::max(a, b), std::max(u, v)); }; I gxx = gap(p[0].x, p[1].x, p[2].x, p[3].x), gy = gap(p[0].y, p[1].y, p[2].y, p[3].y); bool want = gxx <= 0 && gy <= 0; if (std::max(gxx, gy) == 0) c.nontrivial();
    bool g = bounding_box_intersection(P(p[0], sc), P(p[1], sc), P(p[2], sc), P(p[3], sc), cmp()); VP_CHECK(c, g == want, "bounding_box_intersection", "points form " << g); g = bounding_box_intersection(Seg(p[0], p[1], sc), Seg(p[2], p[3], sc), cmp()); VP_CHECK(c, g == want, "bounding_box_intersection", "segments form " << g);
}
