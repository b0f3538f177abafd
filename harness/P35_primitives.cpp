// P35: primitives are faithful values - construction, copy, move, assignment and editing histories against plain models.
#include "vp.hpp"
#include <geometrix/primitive/point.hpp>
#include <geometrix/tensor/vector.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/deque_point_sequence.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/capsule.hpp>
#include <geometrix/primitive/rectangle.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/plane.hpp>
#include <geometrix/primitive/hyperplane_traits.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <array>
#include <deque>
#include <cmath>
using namespace geometrix;
using vp::Case;
typedef point<double, 2> P2; typedef point<double, 3> P3; typedef vector<double, 2> V2; typedef vector<double, 3> V3;
typedef std::array<double, 3> M3; // model of a coordinate triple (third 0 in the plane)

static double coord(Case& c) {
    switch (c.draw(4)) { case 0: return (double)c.range(-3, 3); case 1: return (double)c.around(100000); case 2: return c.sreal(1.0); default: return std::ldexp(c.sreal(1.0), (int)c.range(-60, 60)); }
}
template <class P> struct Dim { static const std::size_t n = dimension_of<P>::value; };
static P2 mk(const M3& m, P2*) { return P2(m[0], m[1]); }
static P3 mk(const M3& m, P3*) { return P3(m[0], m[1], m[2]); }
template <class P> static M3 draw_m(Case& c) { M3 m = {{coord(c), coord(c), Dim<P>::n > 2 ? coord(c) : 0.0}}; return m; }
static M3 un(const P2& p) { M3 m = {{get<0>(p), get<1>(p), 0.0}}; return m; }
static M3 un(const P3& p) { M3 m = {{get<0>(p), get<1>(p), get<2>(p)}}; return m; }
static std::ostream& operator<<(std::ostream& os, const M3& m) { return os << "(" << m[0] << "," << m[1] << "," << m[2] << ")"; }
typedef std::vector<M3> MS;
static std::ostream& operator<<(std::ostream& os, const MS& v) { os << "["; for (auto& m : v) os << m; return os << "]"; }
template <class S> static MS uns(const S& s) { MS r; for (auto& p : s) r.push_back(un(p)); return r; }
template <class P> static std::vector<P> mks(const MS& m) { std::vector<P> r; for (auto& x : m) r.push_back(mk(x, (P*)0)); return r; }
template <class P> static MS draw_ms(Case& c, int hi) { MS r; int n = (int)c.range(0, hi); for (int i = 0; i < n; ++i) r.push_back(draw_m<P>(c)); return r; }

//! every way the sequence traits have of reading S agrees with the model
template <class S> static void same(Case& c, S& s, const MS& m, const char* tag) {
    typedef point_sequence_traits<S> A; const S& k = s;
    VP_CHECK(c, uns(k) == m, tag, "holds " << uns(k) << " expected " << m);
    VP_CHECK(c, A::size(k) == m.size() && A::empty(k) == m.empty(), "traits-size", A::size(k) << " expected " << m.size());
    if (m.empty()) return;
    VP_CHECK(c, un(A::front(k)) == m.front() && un(A::back(k)) == m.back() && un(A::front(s)) == m.front() && un(A::back(s)) == m.back(), "traits-ends", "");
    for (std::size_t i = 0; i < m.size(); ++i) VP_CHECK(c, un(A::get_point(k, i)) == m[i] && un(A::get_point(s, i)) == m[i], "traits-index", "index " << i);
    MS f, g; for (auto i = A::begin(k); i != A::end(k); ++i) f.push_back(un(*i)); for (auto i = A::rbegin(k); i != A::rend(k); ++i) g.push_back(un(*i));
    std::reverse(g.begin(), g.end());
    VP_CHECK(c, f == m && g == m, "traits-iterate", "");
}

//! histories over two sequences of one class and the std containers they convert from
template <class S> static void sequence_history(Case& c) {
    typedef typename S::point_type P; typedef point_sequence_traits<S> A; typedef std::vector<P> C;
    S s[2]; MS m[2]; int moved = 0, grown = 0;
    int steps = (int)c.range(1, 14);
    for (int k = 0; k < steps; ++k) {
        int i = (int)c.draw(2), j = 1 - i; unsigned op = (unsigned)c.draw(20);
        VP_NOTE(c, "op " << op << " on " << i);
        switch (op) {
        case 0: { m[i] = draw_ms<P>(c, 5); C v = mks<P>(m[i]); S t(v); s[i] = t; VP_CHECK(c, uns(v) == m[i], "source", "construction from a vector changed it"); break; }
        case 1: { m[i] = draw_ms<P>(c, 5); C v = mks<P>(m[i]); s[i] = v; VP_CHECK(c, uns(v) == m[i], "source", "assignment from a vector changed it"); break; }
        case 2: { m[i] = draw_ms<P>(c, 5); C v = mks<P>(m[i]); s[i] = S(std::move(v)); ++moved; break; }
        case 3: { m[i] = draw_ms<P>(c, 5); C v = mks<P>(m[i]); s[i] = std::move(v); ++moved; break; }
        case 4: { MS n; n.push_back(draw_m<P>(c)); n.push_back(draw_m<P>(c)); n.push_back(draw_m<P>(c)); P* z = 0; s[i] = {mk(n[0], z), mk(n[1], z), mk(n[2], z)}; m[i] = n; break; }
        case 5: { MS n; n.push_back(draw_m<P>(c)); n.push_back(draw_m<P>(c)); P* z = 0; S t{mk(n[0], z), mk(n[1], z)}; s[i] = t; m[i] = n; break; }
        case 6: s[i] = s[j]; m[i] = m[j]; break;
        case 7: { S t(s[j]); s[i] = std::move(t); m[i] = m[j]; ++moved; break; }
        case 8: { s[i] = std::move(s[j]); m[i] = m[j]; s[j].clear(); m[j].clear(); ++moved; break; }
        case 9: { S t(std::move(s[i])); same(c, t, m[i], "move-construct"); s[i] = t; ++moved; break; }
        case 10: { std::deque<P> d; for (auto& x : m[j]) d.push_back(mk(x, (P*)0)); s[i] = S(d.begin(), d.end()); m[i] = m[j]; break; }
        case 11: { s[i] = construct<S>(s[j]); m[i] = m[j]; break; }
        case 12: { C v = mks<P>(m[j]); s[i] = construct<S>(v); m[i] = m[j]; VP_CHECK(c, uns(v) == m[j], "source", "construct<> changed its argument"); break; }
        case 13: { s[i] = construct<S>(s[j].begin(), s[j].end()); m[i] = m[j]; break; }
        case 14: { M3 x = draw_m<P>(c); A::push_back(s[i], mk(x, (P*)0)); m[i].push_back(x); ++grown; break; }
        case 15: { M3 x = draw_m<P>(c); A::emplace_back(s[i], mk(x, (P*)0)); m[i].push_back(x); ++grown; break; }
        case 16: if (!m[i].empty()) { A::pop_back(s[i]); m[i].pop_back(); } break;
        case 17: if (!m[i].empty()) { std::size_t q = (std::size_t)c.draw(m[i].size()); M3 x = draw_m<P>(c); A::get_point(s[i], q) = mk(x, (P*)0); m[i][q] = x; } break;
        case 18: { std::size_t n = (std::size_t)c.draw(5); S t(n); VP_CHECK(c, t.size() == n, "sized", t.size() << " expected " << n); for (auto& p : t) p = mk(M3{{1, 2, 3}}, (P*)0); s[i] = t; m[i] = uns(t); VP_CHECK(c, m[i].size() == n, "sized", ""); break; }
        default: if (!m[i].empty()) { A::front(s[i]) = mk(m[i].back(), (P*)0); m[i].front() = m[i].back(); A::back(s[i]) = s[i].front(); } break;
        }
        same(c, s[0], m[0], "history"); same(c, s[1], m[1], "history");
    }
    if (steps > 3 && (moved || grown)) c.nontrivial();
    c.label_if(moved > 0, "moved"); c.label_if(grown > 0, "grown");
}

//! a polygon with holes keeps what it is given and leaves what it was given from alone
template <class P> static void holes_history(Case& c) {
    typedef polygon_with_holes<P> W; typedef polygon<P> G; typedef std::vector<P> C;
    struct M { MS o; std::vector<MS> h; };
    W w[2]; M m[2]; int steps = (int)c.range(1, 12), holes = 0;
    auto poly = [](const MS& x) { C v = mks<P>(x); return G(v); };
    auto check = [&](W& a, const M& e) {
        const W& k = a; same(c, a.get_outer(), e.o, "outer"); VP_CHECK(c, uns(k.get_outer()) == e.o, "outer", "const access");
        VP_CHECK(c, a.get_holes().size() == e.h.size() && k.get_holes().size() == e.h.size(), "holes", a.get_holes().size() << " holes, expected " << e.h.size());
        for (std::size_t i = 0; i < e.h.size(); ++i) { same(c, a.get_holes()[i], e.h[i], "hole"); VP_CHECK(c, uns(k.get_holes()[i]) == e.h[i], "hole", "const access"); }
    };
    for (int k = 0; k < steps; ++k) {
        int i = (int)c.draw(2), j = 1 - i; unsigned op = (unsigned)c.draw(15);
        MS n = draw_ms<P>(c, 4); G g = poly(n); const G cg = g; VP_NOTE(c, "op " << op << " on " << i << " with " << n);
        std::vector<G> hs; std::vector<MS> hm; if (op < 4) { int q = (int)c.range(0, 3); for (int t = 0; t < q; ++t) { MS x = draw_ms<P>(c, 3); hm.push_back(x); hs.push_back(poly(x)); } }
        bool keeps = true; // the argument g must be left alone
        switch (op) {
        case 0: { const std::vector<G> ch = hs; w[i] = W(cg, ch); m[i].o = n; m[i].h = hm; VP_CHECK(c, ch.size() == hm.size(), "source", ""); break; }
        case 1: w[i] = W(g, std::vector<G>(hs)); m[i].o = n; m[i].h = hm; break;
        case 2: w[i] = W(std::move(g), hs); m[i].o = n; m[i].h = hm; keeps = false; for (std::size_t t = 0; t < hs.size(); ++t) VP_CHECK(c, uns(hs[t]) == hm[t], "source", "the holes passed by reference changed"); break;
        case 3: w[i] = W(std::move(g), std::move(hs)); m[i].o = n; m[i].h = hm; keeps = false; break;
        case 4: { W t(g); w[i] = t; m[i].o = n; m[i].h.clear(); break; }
        case 5: { W t(std::move(g)); w[i] = t; m[i].o = n; m[i].h.clear(); keeps = false; break; }
        case 6: w[i].set_outer(cg); m[i].o = n; break;
        case 7: w[i].set_outer(g); m[i].o = n; break;
        case 8: w[i].set_outer(std::move(g)); m[i].o = n; keeps = false; break;
        case 9: w[i].add_hole(cg); m[i].h.push_back(n); break;
        case 10: w[i].add_hole(g); m[i].h.push_back(n); break;
        case 11: w[i].add_hole(std::move(g)); m[i].h.push_back(n); keeps = false; break;
        case 12: w[i] = w[j]; m[i] = m[j]; break;
        case 13: { W t(std::move(w[i])); check(t, m[i]); w[i] = std::move(t); break; }
        default: { W t(w[j]); t.get_outer().push_back(mk(M3{{9, 9, 9}}, (P*)0)); t.get_holes().clear(); check(w[j], m[j]); break; }
        }
        if (op == 12) { w[j].get_outer().clear(); m[j].o.clear(); }
        if (keeps) VP_CHECK(c, uns(g) == n, "argument", "operation " << op << " changed the polygon passed to it by reference: " << uns(g) << " was " << n);
        holes = std::max<int>(holes, (int)m[i].h.size());
        check(w[0], m[0]); check(w[1], m[1]);
    }
    if (holes > 0 && steps > 2) c.nontrivial(); c.label_if(holes > 2, "several holes");
}

template <class P> static void segments(Case& c) {
    typedef segment<P> S; P* z = 0; M3 a = draw_m<P>(c), b = draw_m<P>(c); S s(mk(a, z), mk(b, z)); int steps = (int)c.range(1, 8), edits = 0;
    S t = s; M3 ta = a, tb = b;
    for (int k = 0; k < steps; ++k) {
        M3 x = draw_m<P>(c); unsigned op = (unsigned)c.draw(13); VP_NOTE(c, "op " << op << " " << x);
        switch (op) {
        case 0: s.set_start(mk(x, z)); a = x; ++edits; break;
        case 1: s.set_end(mk(x, z)); b = x; ++edits; break;
        case 2: set_start(s, mk(x, z)); a = x; ++edits; break;
        case 3: set_end(s, mk(x, z)); b = x; ++edits; break;
        case 4: segment_access_traits<S>::set_start(s, mk(x, z)); a = x; ++edits; break;
        case 5: segment_access_traits<S>::set_end(s, mk(x, z)); b = x; ++edits; break;
        case 6: s = s.reverse(); std::swap(a, b); ++edits; break;
        case 7: t = s; ta = a; tb = b; break;
        case 8: { std::array<P, 2> q = {{mk(x, z), s.get_start()}}; s = construct<S>(q); b = a; a = x; ++edits; break; }
        case 9: { std::vector<P> q; q.push_back(s.get_end()); q.push_back(mk(x, z)); s = construct<S>(q); a = b; b = x; ++edits; break; }
        case 10: s = make_segment(s.get_end(), mk(x, z)); a = b; b = x; ++edits; break;
        case 11: { polyline<P> q{mk(x, z), mk(b, z)}; s = construct<S>(q); a = x; ++edits; break; }
        default: s = construct<S>(mk(x, z), mk(b, z)); a = x; ++edits; break;
        }
        VP_CHECK(c, un(s.get_start()) == a && un(s.get_end()) == b, "segment", "is " << un(s.get_start()) << un(s.get_end()) << " expected " << a << b);
        VP_CHECK(c, un(get_start(s)) == a && un(get_end(s)) == b && number_vertices(s) == 2 && un(get_vertex(s, 0)) == a && un(get_vertex(s, 1)) == b, "segment-access", "");
        VP_CHECK(c, un(t.get_start()) == ta && un(t.get_end()) == tb, "copy", "an earlier copy changed");
        S r = s.reverse(); VP_CHECK(c, un(r.get_start()) == b && un(r.get_end()) == a, "reverse", "");
    }
    if (edits > 1) c.nontrivial();
}
static void round_shapes(Case& c) {
    typedef sphere<2, P2> C2; typedef sphere<3, P3> S3; P2* z2 = 0; P3* z3 = 0;
    M3 a = draw_m<P2>(c), q = draw_m<P3>(c), b = draw_m<P2>(c); double r = std::fabs(coord(c)), r3 = std::fabs(coord(c));
    if (r != r3) c.nontrivial(); VP_NOTE(c, a << b << q << " r " << r << " " << r3);
    C2 s(mk(a, z2), r); S3 t(mk(q, z3), r3); C2 s0 = s;
    VP_CHECK(c, un(get_center(s)) == a && get_radius(s) == r && un(get_center(t)) == q && get_radius(t) == r3, "sphere", "");
    C2 u = construct<C2>(mk(a, z2), r); auto v = make_sphere<2>(mk(a, z2), r); auto w = make_sphere<3>(mk(q, z3), r3);
    VP_CHECK(c, un(u.get_center()) == a && u.get_radius() == r && un(v.get_center()) == a && v.get_radius() == r && un(w.get_center()) == q && w.get_radius() == r3, "make-sphere", "");
    s.set_center(mk(b, z2)); VP_CHECK(c, un(s.get_center()) == b && s.get_radius() == r, "set-center", ""); s.set_radius(r3); VP_CHECK(c, un(s.get_center()) == b && s.get_radius() == r3, "set-radius", "");
    s.set_center(mk(a, z2) + (mk(b, z2) - mk(a, z2))); VP_CHECK(c, s.get_radius() == r3, "set-center", "radius changed");
    VP_CHECK(c, un(s0.get_center()) == a && s0.get_radius() == r, "copy", "");
    typedef capsule<P2> K; segment<P2> g(mk(a, z2), mk(b, z2)); K k(mk(a, z2), mk(b, z2), r), l(g, r), x = construct<K>(g, r3), y = construct<K>(mk(b, z2), mk(a, z2), r);
    auto is = [&](const K& e, const M3& p, const M3& o, double R) { return un(e.get_segment().get_start()) == p && un(e.get_segment().get_end()) == o && e.get_radius() == R && un(get_start(capsule_access_traits<K>::get_segment(e))) == p && capsule_access_traits<K>::get_radius(e) == R; };
    VP_CHECK(c, is(k, a, b, r) && is(l, a, b, r) && is(x, a, b, r3) && is(y, b, a, r), "capsule", "");
    K d; d = y; VP_CHECK(c, is(d, b, a, r), "capsule-assign", "");
}
static void boxes(Case& c) {
    typedef rectangle<P2> R; typedef oriented_bounding_box<P2, V2> O; P2* z = 0;
    MS n; for (int i = 0; i < 4; ++i) n.push_back(draw_m<P2>(c));
    std::array<P2, 4> arr = {{mk(n[0], z), mk(n[1], z), mk(n[2], z), mk(n[3], z)}};
    R r(arr), t(mk(n[0], z), mk(n[1], z), mk(n[2], z), mk(n[3], z)), q = construct<R>(mk(n[0], z), mk(n[1], z), mk(n[2], z), mk(n[3], z)), k = r;
    k[2] = mk(n[0], z); k = t; same(c, r, n, "rectangle"); same(c, t, n, "rectangle"); same(c, q, n, "rectangle"); same(c, k, n, "rectangle");
    // oriented box with exactly representable axes (pythagorean triples over a power of two would not be unit): quarter turns, and rotations within rounding
    double ang = c.chance(1, 3) ? 0 : c.sreal(3.2), cs = std::cos(ang), sn = std::sin(ang), hu = c.real(0.01, 50), hv = c.real(0.01, 50); M3 ce = {{c.sreal(100), c.sreal(100), 0}};
    if (ang != 0 && hu != hv) c.nontrivial(); VP_NOTE(c, "centre " << ce << " angle " << ang << " half widths " << hu << "," << hv);
    O o(mk(ce, z), V2(cs, sn), V2(-sn, cs), hu, hv); double tol = 1e-9;
    VP_CHECK(c, un(o.get_center()) == ce && get<0>(o.get_axis(0)) == cs && get<1>(o.get_axis(0)) == sn && get<0>(o.get_axis(1)) == -sn && get<1>(o.get_axis(1)) == cs && o.get_halfwidth(0) == hu && o.get_halfwidth(1) == hv && o.size() == 4, "box", "");
    static const int su[4] = {-1, 1, 1, -1}, sv[4] = {-1, -1, 1, 1}; R rc = o.get_rectangle();
    auto corners = [&](const O& b, const M3& ctr) { for (int i = 0; i < 4; ++i) { M3 p = un(b[i]); double ex = ctr[0] + su[i] * hu * cs - sv[i] * hv * sn, ey = ctr[1] + su[i] * hu * sn + sv[i] * hv * cs; VP_CHECK(c, std::fabs(p[0] - ex) <= tol && std::fabs(p[1] - ey) <= tol, "corner", i << " is " << p << " expected " << ex << "," << ey); } };
    corners(o, ce); for (int i = 0; i < 4; ++i) VP_CHECK(c, un(rc[i]) == un(o[i]), "get-rectangle", "corner " << i);
    O m = make_obb<P2, V2>(rc);
    VP_CHECK(c, std::fabs(get<0>(m.get_center()) - ce[0]) <= tol && std::fabs(get<1>(m.get_center()) - ce[1]) <= tol && std::fabs(m.get_halfwidth(0) - hu) <= tol && std::fabs(m.get_halfwidth(1) - hv) <= tol, "make-obb", m.get_halfwidth(0) << "," << m.get_halfwidth(1));
    VP_CHECK(c, std::fabs(get<0>(m.get_axis(0)) - cs) <= 1e-7 && std::fabs(get<1>(m.get_axis(0)) - sn) <= 1e-7 && std::fabs(get<0>(m.get_axis(1)) + sn) <= 1e-7 && std::fabs(get<1>(m.get_axis(1)) - cs) <= 1e-7, "make-obb-axes", "");
    corners(m, ce); O keep = o; M3 nc = {{c.sreal(100), c.sreal(100), 0}}; o.set_center(mk(nc, z)); VP_CHECK(c, un(o.get_center()) == nc, "set-center", ""); corners(o, nc); corners(keep, ce);
    VP_CHECK(c, o.get_halfwidth(0) == hu && o.get_halfwidth(1) == hv && get<0>(o.get_axis(0)) == cs, "set-center", "changed the shape");
    bool threw = false; try { if (c.chance(1, 2)) (void)o[3]; } catch (...) { threw = true; } VP_CHECK(c, !threw, "index", "");
}
static void lines(Case& c) {
    typedef line<P2> L; typedef line_access_traits<L> A; typedef segment<P2> S; double ax = c.sreal(1000), ay = c.sreal(1000), dx = c.chance(1, 4) ? (double)c.range(-2, 2) : c.sreal(1000), dy = c.chance(1, 4) ? (double)c.range(-2, 2) : c.sreal(1000);
    double n = std::hypot(dx, dy); if (n < 1e-6) c.discard(); P2 a(ax, ay), b(ax + dx, ay + dy); dx = get<0>(b) - ax; dy = get<1>(b) - ay; n = std::hypot(dx, dy); if (n < 1e-6) c.discard(); VP_NOTE(c, "through " << un(a) << un(b)); c.nontrivial();
    S s(a, b); V2 d(dx, dy); double tol = 1e-9;
    L ls[] = {L(a, b), L(a, d), L(s), make_line(a, b), make_line(a, d), make_line(s), construct<L>(a, b), construct<L>(a, d), make_hyperplane(s), line<P2>(make_line(s))};
    for (std::size_t i = 0; i < sizeof ls / sizeof *ls; ++i) {
        const L& l = ls[i]; double ux = dx / n, uy = dy / n;
        VP_CHECK(c, un(A::get_reference_point(l)) == un(a) && un(l.get_reference_point()) == un(a), "reference", "construction " << i);
        VP_CHECK(c, std::fabs(get<0>(l.get_parallel_vector()) - ux) <= tol && std::fabs(get<1>(l.get_parallel_vector()) - uy) <= tol && std::fabs(get<0>(A::get_parallel_vector(l)) - ux) <= tol, "direction", "construction " << i);
        VP_CHECK(c, std::fabs(get<0>(l.get_normal_vector()) + uy) <= tol && std::fabs(get<1>(l.get_normal_vector()) - ux) <= tol && std::fabs(get<1>(A::get_normal_vector(l)) - ux) <= tol, "normal", "construction " << i);
        double w = -uy * ax + ux * ay; VP_CHECK(c, std::fabs(l.get_distance_to_origin() - w) <= tol * 1e3, "offset", "construction " << i << ": " << l.get_distance_to_origin() << " expected " << w);
        L cp = l; VP_CHECK(c, un(cp.get_reference_point()) == un(a) && cp.get_distance_to_origin() == l.get_distance_to_origin(), "copy", "");
    }
}
//! point and vector values: construction, element access, assignment, conversions
template <class T, std::size_t N> struct mkn;
template <class T> struct mkn<T, 2> { template <class X> static X f(const double* v) { return X((T)v[0], (T)v[1]); } template <class X> static X k(const double* v) { return construct<X>((T)v[0], (T)v[1]); } template <class X> static void as(X& x, const double* v) { assign(x, (T)v[0], (T)v[1]); } };
template <class T> struct mkn<T, 3> { template <class X> static X f(const double* v) { return X((T)v[0], (T)v[1], (T)v[2]); } template <class X> static X k(const double* v) { return construct<X>((T)v[0], (T)v[1], (T)v[2]); } template <class X> static void as(X& x, const double* v) { assign(x, (T)v[0], (T)v[1], (T)v[2]); } };
template <class T> struct mkn<T, 4> { template <class X> static X f(const double* v) { return X((T)v[0], (T)v[1], (T)v[2], (T)v[3]); } template <class X> static X k(const double* v) { return construct<X>((T)v[0], (T)v[1], (T)v[2], (T)v[3]); } template <class X> static void as(X& x, const double* v) { assign(x, (T)v[0], (T)v[1], (T)v[2], (T)v[3]); } };
template <class T> struct mkn<T, 5> { template <class X> static X f(const double* v) { return X((T)v[0], (T)v[1], (T)v[2], (T)v[3], (T)v[4]); } template <class X> static X k(const double* v) { return construct<X>((T)v[0], (T)v[1], (T)v[2], (T)v[3], (T)v[4]); } template <class X> static void as(X& x, const double* v) { assign(x, (T)v[0], (T)v[1], (T)v[2], (T)v[3], (T)v[4]); } };
template <std::size_t I, std::size_t N> struct Each {
    template <class X> static bool eq(const X& x, const double* v) { return (double)get<I>(x) == v[I] && (double)x[I] == v[I] && (double)x.get(I) == v[I] && (double)x.template get<I>() == v[I] && Each<I + 1, N>::eq(x, v); }
    template <class X> static void put(X& x, std::size_t i, double v) { if (i == I) set<I>(x, (typename type_at<X, I>::type)v); else Each<I + 1, N>::put(x, i, v); }
};
template <std::size_t N> struct Each<N, N> { template <class X> static bool eq(const X&, const double*) { return true; } template <class X> static void put(X&, std::size_t, double) {} };
template <class T, std::size_t N> static void values(Case& c) {
    typedef point<T, N> P; typedef vector<T, N> V; typedef Each<0, N> E; typedef mkn<T, N> K; double v[5], w[5];
    for (auto* q : {v, w}) for (std::size_t i = 0; i < 5; ++i) q[i] = (double)(T)(std::is_same<T, int>::value ? (double)c.around(100000) : coord(c));
    P p = K::template f<P>(v), o = p; V u = K::template f<V>(w), z = K::template k<V>(v); int edits = 0;
    VP_CHECK(c, E::eq(p, v) && E::eq(u, w) && E::eq(K::template k<P>(v), v) && E::eq(z, v), "construct", "");
    { T raw[N]; for (std::size_t i = 0; i < N; ++i) raw[i] = (T)w[i]; boost::array<T, N> ar; std::copy(raw, raw + N, ar.begin()); numeric_sequence<T, N> ns(ar); for (std::size_t i = 0; i < N; ++i) VP_CHECK(c, (double)ns[i] == w[i], "from-array", ""); }
    int steps = (int)c.range(1, 8); double a[5], b[5]; std::copy(v, v + 5, a); std::copy(w, w + 5, b); // models of p and u
    for (int k = 0; k < steps; ++k) {
        unsigned op = (unsigned)c.draw(14); std::size_t i = (std::size_t)c.draw(N); double x = (double)(T)(std::is_same<T, int>::value ? (double)c.around(100000) : coord(c));
        VP_NOTE(c, "op " << op << " index " << i << " value " << x);
        switch (op) {
        case 0: E::put(p, i, x); a[i] = x; ++edits; break;
        case 1: E::put(u, i, x); b[i] = x; ++edits; break;
        case 2: p[i] = (T)x; a[i] = x; ++edits; break;
        case 3: u[i] = (T)x; b[i] = x; ++edits; break;
        case 4: p = as_point(u); std::copy(b, b + 5, a); ++edits; break;
        case 5: u = as_vector(p); std::copy(a, a + 5, b); ++edits; break;
        case 6: assign(p, o); std::copy(v, v + 5, a); ++edits; break;
        case 7: K::as(p, w); std::copy(w, w + 5, a); break;
        case 8: u = construct<V>(p); std::copy(a, a + 5, b); break;
        case 10: p.set(i, (T)x); a[i] = x; ++edits; break;
        case 11: u.get(i) = (T)x; b[i] = x; ++edits; break;
        case 12: p.template set<N - 1>((T)x); a[N - 1] = x; ++edits; break;
        case 9: { P t(p), s = t; t[i] = (T)x; p = s; break; }
        default: { V t = u; std::swap(t, u); assign(u, t); break; }
        }
        VP_CHECK(c, E::eq(p, a), "point", "operation " << op); VP_CHECK(c, E::eq(u, b), "vector", "operation " << op);
        VP_CHECK(c, E::eq(o, v) && E::eq(z, v), "copy", "an earlier copy changed in operation " << op);
        const auto& cv = as_vector(p); const auto& cp = as_point(u); for (std::size_t q = 0; q < N; ++q) VP_CHECK(c, (double)cv[q] == a[q] && (double)cp[q] == b[q], "view", "");
    }
    if (edits > 1) c.nontrivial();
}
VP_ASPECT(sequences, 180000, 800000, "four or more steps including a move or an element appended") {
    switch (c.draw(4)) { case 0: sequence_history<polygon<P2>>(c); break; case 1: sequence_history<polyline<P2>>(c); break; case 2: sequence_history<polygon<P3>>(c); break; default: sequence_history<polyline<P3>>(c); }
}
VP_ASPECT(holes, 180000, 800000, "three or more steps and at least one hole") { if (c.chance(1, 4)) holes_history<P3>(c); else holes_history<P2>(c); }
VP_ASPECT(segment_histories, 120000, 600000, "at least two edits") { if (c.chance(1, 3)) segments<P3>(c); else segments<P2>(c); }
VP_ASPECT(spheres_and_capsules, 120000, 500000, "the two radii differ") { round_shapes(c); }
VP_ASPECT(rectangles_and_boxes, 120000, 500000, "turned box with different half widths") { boxes(c); }
VP_ASPECT(lines_through, 120000, 500000, "every case") { lines(c); }
VP_ASPECT(points_and_vectors, 240000, 1000000, "at least two edits") {
    switch (c.draw(7)) { case 0: values<double, 2>(c); break; case 1: values<double, 3>(c); break; case 2: values<double, 4>(c); break; case 3: values<double, 5>(c); break; case 4: values<float, 2>(c); break; case 5: values<int, 3>(c); break; default: values<int, 2>(c); }
}
