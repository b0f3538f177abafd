// gx.hpp - integer-grid geometry generators and exact oracles shared by the harnesses.
// Nothing here calls the library under test.
#ifndef VP_GX_HPP
#define VP_GX_HPP
#include "vp.hpp"
#include <cstdlib>

namespace gx {
typedef int64_t I; typedef __int128 W; typedef long double LD;
struct V { I x, y; V(I a = 0, I b = 0) : x(a), y(b) {} };
inline bool operator==(V a, V b) { return a.x == b.x && a.y == b.y; }
inline bool operator!=(V a, V b) { return !(a == b); }
inline bool operator<(V a, V b) { return a.x < b.x || (a.x == b.x && a.y < b.y); }
inline V operator+(V a, V b) { return V(a.x + b.x, a.y + b.y); }
inline V operator-(V a, V b) { return V(a.x - b.x, a.y - b.y); }
inline V operator*(I k, V a) { return V(k * a.x, k * a.y); }
inline I cross(V a, V b) { return a.x * b.y - a.y * b.x; }
inline I dot(V a, V b) { return a.x * b.x + a.y * b.y; }
inline I orient(V a, V b, V c) { return cross(b - a, c - a); }
inline int sgn(I v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
inline int sgnw(W v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
inline int side(V a, V b, V c) { return sgn(orient(a, b, c)); }
inline std::ostream& operator<<(std::ostream& os, V v) { return os << "(" << v.x << "," << v.y << ")"; }
typedef std::vector<V> Poly;
inline std::ostream& operator<<(std::ostream& os, const Poly& p) { os << "["; for (auto v : p) os << v; return os << "]"; }

//! exact rational (small numerators only)
struct Q {
    W n, d;
    Q(W a = 0, W b = 1) : n(a), d(b) { norm(); }
    static W g(W a, W b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { W t = a % b; a = b; b = t; } return a; }
    void norm() { if (d < 0) { n = -n; d = -d; } W k = g(n, d); if (k > 1) { n /= k; d /= k; } }
    LD ld() const { return (LD)n / (LD)d; }
    double dbl() const { return (double)ld(); }
};
inline Q operator+(Q a, Q b) { return Q(a.n * b.d + b.n * a.d, a.d * b.d); }
inline Q operator-(Q a, Q b) { return Q(a.n * b.d - b.n * a.d, a.d * b.d); }
inline Q operator*(Q a, Q b) { return Q(a.n * b.n, a.d * b.d); }
inline Q operator/(Q a, Q b) { return Q(a.n * b.d, a.d * b.n); }
inline bool operator<(Q a, Q b) { return a.n * b.d < b.n * a.d; }
inline bool operator>(Q a, Q b) { return b < a; }
inline bool operator<=(Q a, Q b) { return !(b < a); }
inline bool operator>=(Q a, Q b) { return !(a < b); }
inline bool operator==(Q a, Q b) { return a.n == b.n && a.d == b.d; }
inline bool operator!=(Q a, Q b) { return !(a == b); }
inline std::ostream& operator<<(std::ostream& os, Q q) { return os << (long long)q.n << "/" << (long long)q.d; }

inline bool on_seg(V a, V b, V p) { return side(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y); }
//! closed segments share a point
inline bool seg_seg(V a, V b, V c, V d) {
    int o1 = side(a, b, c), o2 = side(a, b, d), o3 = side(c, d, a), o4 = side(c, d, b);
    if (o1 * o2 < 0 && o3 * o4 < 0) return true;
    return on_seg(a, b, c) || on_seg(a, b, d) || on_seg(c, d, a) || on_seg(c, d, b);
}
inline bool proper_cross(V a, V b, V c, V d) { return side(a, b, c) * side(a, b, d) < 0 && side(c, d, a) * side(c, d, b) < 0; }
//! squared distance point - segment, exact
inline Q d2_pt_seg(V p, V a, V b) {
    V u = b - a; I l2 = dot(u, u); if (l2 == 0) return Q(dot(p - a, p - a));
    I t = dot(p - a, u); if (t <= 0) return Q(dot(p - a, p - a)); if (t >= l2) return Q(dot(p - b, p - b));
    I cr = cross(u, p - a); return Q((W)cr * cr, l2);
}
inline Q qmin(Q a, Q b) { return b < a ? b : a; }
inline Q d2_seg_seg(V a, V b, V c, V d) {
    if (seg_seg(a, b, c, d)) return Q(0);
    return qmin(qmin(d2_pt_seg(a, c, d), d2_pt_seg(b, c, d)), qmin(d2_pt_seg(c, a, b), d2_pt_seg(d, a, b)));
}
inline I area2(const Poly& p) { I s = 0; for (std::size_t i = 0; i < p.size(); ++i) s += cross(p[i], p[(i + 1) % p.size()]); return s; }
inline bool on_border(const Poly& p, V q) { for (std::size_t i = 0; i < p.size(); ++i) if (on_seg(p[i], p[(i + 1) % p.size()], q)) return true; return false; }
//! 1 strictly inside, 0 on the border, -1 outside
inline int locate(const Poly& p, V q) {
    if (on_border(p, q)) return 0; bool in = false;
    for (std::size_t i = 0, j = p.size() - 1; i < p.size(); j = i++) {
        V a = p[i], b = p[j];
        if ((a.y > q.y) != (b.y > q.y)) { I o = orient(a, b, q); if ((b.y > a.y) ? o > 0 : o < 0) in = !in; }
    }
    return in ? 1 : -1;
}
//! simple polygon: distinct vertices, non-adjacent edges disjoint, adjacent edges share only their vertex
inline bool is_simple(const Poly& p) {
    std::size_t n = p.size(); if (n < 3) return false;
    for (std::size_t i = 0; i < n; ++i) {
        V a = p[i], b = p[(i + 1) % n], c = p[(i + 2) % n]; if (a == b) return false;
        if (side(a, b, c) == 0 && dot(b - a, c - b) <= 0) return false;
        for (std::size_t j = i + 2; j < n; ++j) { if (i == 0 && j == n - 1) continue; if (seg_seg(a, b, p[j], p[(j + 1) % n])) return false; }
    }
    return true;
}
inline bool is_simple_chain(const Poly& p) {
    std::size_t n = p.size(); if (n < 2) return false;
    for (std::size_t i = 0; i + 1 < n; ++i) {
        V a = p[i], b = p[i + 1]; if (a == b) return false;
        if (i + 2 < n && side(a, b, p[i + 2]) == 0 && dot(b - a, p[i + 2] - b) <= 0) return false;
        for (std::size_t j = i + 2; j + 1 < n; ++j) if (seg_seg(a, b, p[j], p[j + 1])) return false;
    }
    return true;
}
inline Poly hull(Poly p, bool keep_collinear = false) { // strictly convex, ccw
    std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end()); (void)keep_collinear;
    if (p.size() < 3) return p;
    Poly h(2 * p.size()); std::size_t k = 0;
    for (std::size_t i = 0; i < p.size(); ++i) { while (k >= 2 && side(h[k - 2], h[k - 1], p[i]) <= 0) --k; h[k++] = p[i]; }
    std::size_t t = k + 1;
    for (std::size_t i = p.size() - 1; i-- > 0;) { while (k >= t && side(h[k - 2], h[k - 1], p[i]) <= 0) --k; h[k++] = p[i]; }
    h.resize(k - 1); return h;
}

// ------------------------------------------------------------------ generators
inline V pt(vp::Case& c, I m) { I x = c.around(m); I y = c.around(m); return V(x, y); }
//! grid half-width: small sizes dominate so degenerate configurations are frequent
inline I grid(vp::Case& c) { return c.pick<I>({3, 2, 5, 8, 20, 100, 1000}); }
inline Poly remove_collinear(const Poly& p) {
    Poly r; std::size_t n = p.size();
    for (std::size_t i = 0; i < n; ++i) if (side(p[(i + n - 1) % n], p[i], p[(i + 1) % n]) != 0) r.push_back(p[i]);
    return r;
}
inline Poly make_ccw(Poly p) { if (area2(p) < 0) std::reverse(p.begin(), p.end()); return p; }
//! now and then the usual size limits are left far behind (callers that pass a limit below nine need it kept)
inline bool large(vp::Case& c, I m, int maxpts) { return m >= 20 && maxpts >= 8 && c.chance(1, 64); }
inline int large_size(vp::Case& c) { return c.chance(1, 6) ? (int)c.range(65, 300) : (int)c.range(20, 64); }
//! convex polygon with many vertices: the hull of lattice points next to a circle
inline Poly gen_round(vp::Case& c, I m) {
    int n = large_size(c); Poly p; double ph = (double)c.range(0, 99) / 100; for (int i = 0; i < n; ++i) { double t = 6.283185307179586 * (i + ph) / n; p.push_back(V((I)((double)m * std::cos(t)), (I)((double)m * std::sin(t)))); }
    return hull(p);
}
//! simple polygon with many vertices: two x-monotone chains on either side of a line, possibly transposed
inline Poly gen_monotone(vp::Case& c, I m) {
    int n = large_size(c); I w = 2 * m; I cols = std::min<I>(std::max<I>(2, n / 2), w - 1); Poly p; p.push_back(V(-m, 0)); I y0 = 0;
    for (int k = 0; k < 2; ++k) { std::vector<I> xs; I left = w - 1; I need = cols; for (I x = 1; x < w && need > 0; ++x, --left) if ((I)c.draw((std::uint64_t)left) < need) { xs.push_back(x - m); --need; } if (k) std::reverse(xs.begin(), xs.end()); for (I x : xs) p.push_back(V(x, k ? y0 + c.range(1, m) : y0 - c.range(1, m))); if (k == 0) p.push_back(V(m, 0)); }
    p = remove_collinear(p); if (c.chance(1, 2)) for (auto& v : p) { I t = v.x; v.x = -v.y; v.y = t; } return make_ccw(p);
}
inline Poly gen_convex(vp::Case& c, I m, int maxpts = 9) {
    if (large(c, m, maxpts)) { Poly h = gen_round(c, m); if (h.size() >= 3) return h; }
    for (int t = 0; t < 6; ++t) {
        int n = (int)c.range(3, maxpts); Poly p; for (int i = 0; i < n; ++i) p.push_back(pt(c, m));
        Poly h = hull(p); if (h.size() >= 3) return h;
    }
    return Poly{V(0, 0), V(m, 0), V(0, m)};
}
inline Poly gen_star(vp::Case& c, I m, int maxpts = 10) {
    int n = (int)c.range(3, maxpts); V o = V(0, 0); Poly p;
    for (int i = 0; i < n; ++i) { V v = pt(c, m); if (v != o) p.push_back(v); }
    auto half = [](V v) { return v.y > 0 || (v.y == 0 && v.x > 0) ? 0 : 1; };
    std::stable_sort(p.begin(), p.end(), [&](V a, V b) { int ha = half(a), hb = half(b); if (ha != hb) return ha < hb; return cross(a, b) > 0; });
    Poly r; for (auto v : p) if (r.empty() || half(r.back()) != half(v) || cross(r.back(), v) != 0) r.push_back(v);
    if (is_simple(r)) return make_ccw(r);
    return Poly{V(0, 0), V(m, 0), V(m, m), V(0, m)};
}
inline Poly gen_skyline(vp::Case& c, I m, int maxcols = 5) { // rectilinear, possibly with collinear vertices removed
    int k = (int)c.range(1, maxcols); Poly up, lo; I x = -(m / 2);
    for (int i = 0; i < k; ++i) {
        I w = c.range(1, std::max<I>(1, m / 3)); I top = c.range(1, std::max<I>(1, m)); I bot = -c.range(0, std::max<I>(0, m / 2));
        up.push_back(V(x, top)); up.push_back(V(x + w, top)); lo.push_back(V(x, bot)); lo.push_back(V(x + w, bot)); x += w;
    }
    Poly p(lo); for (std::size_t i = up.size(); i-- > 0;) p.push_back(up[i]);
    Poly q; for (auto v : p) if (q.empty() || q.back() != v) q.push_back(v);
    if (q.size() > 1 && q.front() == q.back()) q.pop_back();
    q = remove_collinear(q); if (is_simple(q)) return make_ccw(q);
    return Poly{V(0, 0), V(m, 0), V(m, m), V(0, m)};
}
inline Poly gen_2opt(vp::Case& c, I m, int maxpts = 9) { // arbitrary simple polygon by untangling random points
    int n = (int)c.range(3, maxpts); Poly p;
    for (int i = 0; i < n; ++i) { V v = pt(c, m); if (std::find(p.begin(), p.end(), v) == p.end()) p.push_back(v); }
    n = (int)p.size(); if (n < 3) return Poly{V(0, 0), V(m, 0), V(0, m)};
    for (int it = 0; it < 60; ++it) {
        bool ch = false;
        for (int i = 0; i < n && !ch; ++i) for (int j = i + 2; j < n && !ch; ++j) {
            if (i == 0 && j == n - 1) continue;
            if (seg_seg(p[i], p[i + 1], p[j], p[(j + 1) % n])) { std::reverse(p.begin() + i + 1, p.begin() + j + 1); ch = true; }
        }
        if (!ch) break;
    }
    p = remove_collinear(p);
    if (is_simple(p)) return make_ccw(p);
    return gen_star(c, m, maxpts);
}
//! simple ccw polygon without collinear vertices
inline Poly gen_simple(vp::Case& c, I m, int maxpts = 9) {
    if (large(c, m, maxpts)) return gen_monotone(c, m);
    switch (c.draw(4)) { case 0: return gen_convex(c, m, maxpts); case 1: return gen_2opt(c, m, maxpts); case 2: return gen_star(c, m, maxpts); default: return gen_skyline(c, m, 4); }
}
//! random start vertex
inline Poly rotate_start(vp::Case& c, Poly p) { std::rotate(p.begin(), p.begin() + (std::ptrdiff_t)c.draw(p.size()), p.end()); return p; }
//! split some edges at lattice midpoints (adds collinear vertices); doubles the coordinates
inline Poly with_collinear(vp::Case& c, const Poly& p) {
    Poly r; std::size_t n = p.size();
    for (std::size_t i = 0; i < n; ++i) { r.push_back(2 * p[i]); if (c.chance(1, 3)) r.push_back(p[i] + p[(i + 1) % n]); }
    return r;
}
inline Poly translate(Poly p, V t) { for (auto& v : p) v = v + t; return p; }
//! simple open chain
inline Poly gen_chain(vp::Case& c, I m, int maxpts = 8) {
    if (large(c, m, maxpts)) { int k = std::min<int>(large_size(c), (int)m); Poly p; I x = -m; for (int i = 0; i < k; ++i) { p.push_back(V(x, c.around(m))); x += c.range(1, std::max<I>(1, 2 * m / k)); } if (c.chance(1, 2)) for (auto& v : p) std::swap(v.x, v.y); if (c.chance(1, 2)) std::reverse(p.begin(), p.end()); return p; }
    int n = (int)c.range(2, maxpts); Poly p; p.push_back(pt(c, m));
    for (int i = 1; i < n; ++i) { V v = pt(c, m); p.push_back(v); if (!is_simple_chain(p)) p.pop_back(); }
    if (p.size() < 2) p.push_back(p[0] + V(1, 0));
    return p;
}
//! any chain with non-degenerate edges
inline Poly gen_any_chain(vp::Case& c, I m, int maxpts = 8) {
    int n = large(c, m, maxpts) ? large_size(c) : (int)c.range(2, maxpts); Poly p; p.push_back(pt(c, m));
    for (int i = 1; i < n; ++i) { V v = pt(c, m); if (v != p.back()) p.push_back(v); }
    if (p.size() < 2) p.push_back(p[0] + V(1, 0));
    return p;
}
//! interesting point relative to a polygon: vertex, edge lattice point, random
inline V probe(vp::Case& c, const Poly& p, I m) {
    switch (c.draw(4)) {
    case 1: return p[(std::size_t)c.draw(p.size())];
    case 2: { std::size_t i = (std::size_t)c.draw(p.size()); V a = p[i], b = p[(i + 1) % p.size()]; V d = b - a; I g = std::max<I>(1, (I)Q::g(d.x, d.y)); I k = c.range(0, g); return V(a.x + d.x / g * k, a.y + d.y / g * k); }
    case 3: { V a = p[(std::size_t)c.draw(p.size())]; return V(c.chance(1, 2) ? a.x : c.around(m), a.y); }
    default: return pt(c, m + 1);
    }
}
inline bool close(LD a, LD b, LD rel = 1e-9L, LD abs = 1e-9L) { return std::fabs((double)(a - b)) <= (double)(abs + rel * std::max(std::fabs((double)a), std::fabs((double)b))); }
} // namespace gx
#endif
