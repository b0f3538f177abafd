// P08: moving shapes report the true first (and last) contact.
#include "gl.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/plane.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_plane_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_obb_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_separating_axis_convex_polygons.hpp>
using namespace geometrix; using namespace gl; using vp::Case;
typedef sphere2_double_2d C2; typedef sphere3_double_3d C3; typedef oriented_bounding_box<P2, V2> OB; typedef axis_aligned_bounding_box<P2> BB;
struct L { LD x, y; }; static L operator+(L a, L b) { return {a.x + b.x, a.y + b.y}; } static L operator-(L a, L b) { return {a.x - b.x, a.y - b.y}; } static L operator*(LD k, L a) { return {k * a.x, k * a.y}; } static LD dt(L a, L b) { return a.x * b.x + a.y * b.y; } static LD cr(L a, L b) { return a.x * b.y - a.y * b.x; }
static LD dseg(L p, L a, L b, L* cp = 0) { L u = b - a; LD l = dt(u, u), t = l > 0 ? dt(p - a, u) / l : 0; t = t < 0 ? 0 : t > 1 ? 1 : t; L q = a + t * u; if (cp) *cp = q; q = p - q; return std::sqrt(dt(q, q)); }
typedef std::vector<L> Sh_; //!< convex, ccw; 1 vertex: point, 2: segment, more: solid
static LD dsh(L p, const Sh_& s, L* cp = 0) { if (s.size() >= 3) { bool in = true; for (std::size_t i = 0; i < s.size(); ++i) if (cr(s[(i + 1) % s.size()] - s[i], p - s[i]) < 0) in = false; if (in) { if (cp) *cp = p; return 0; } } LD best = 1e30L; std::size_t e = s.size() >= 3 ? s.size() : s.size() == 2 ? 1 : 1; for (std::size_t i = 0; i < e; ++i) { L c; LD d = dseg(p, s[i], s[(i + 1) % s.size()], &c); if (d < best) { best = d; if (cp) *cp = c; } } return best; }
struct Contact { bool hit; LD t, start, closest; };
//! first t >= 0 with dist(c + t v, s) <= r; distance to a convex set is convex in t
static Contact contact(L c, L v, LD r, const Sh_& s) {
    Contact k; auto f = [&](LD t) { return dsh(c + t * v, s); }; k.start = f(0); LD far = 0; for (auto& p : s) { L d = p - c; far = std::max(far, std::sqrt(dt(d, d))); } LD lo = 0, hi = 2 * (far + r + 1) / std::sqrt(dt(v, v));
    for (int i = 0; i < 130; ++i) { LD a = lo + (hi - lo) / 3, b = hi - (hi - lo) / 3; if (f(a) <= f(b)) hi = b; else lo = a; } // first minimum
    LD tm = (lo + hi) / 2; k.closest = std::min(f(tm), k.start); k.hit = k.closest <= r; if (k.start <= r) { k.t = 0; return k; } lo = 0; hi = tm; if (k.hit) for (int i = 0; i < 90; ++i) { LD m = (lo + hi) / 2; (f(m) <= r ? hi : lo) = m; } k.t = hi; return k; }
static L l(V v, double s = 1) { return {v.x * (LD)s, v.y * (LD)s}; } static L lp(const P2& p) { return {p[0], p[1]}; }
struct Trip { int a, b, h; }; static Trip trip(Case& c) { return c.pick<Trip>({{1, 0, 1}, {3, 4, 5}, {0, 1, 1}, {-4, 3, 5}, {5, -12, 13}, {-1, 0, 1}, {-15, -8, 17}}); }
//! verdict, time and contact point of a moving disc against a convex shape
static void check(Case& c, const char* tag, const Contact& k, L o, L v, LD r, const Sh_& s, bool got, double t, const P2& q, bool overlapq, double size) {
    if (std::fabs((double)(k.start - r)) < 1e-7 * size) { c.label("touching at the start"); if (got) VP_CHECK(c, t >= -1e-9 && t <= 1e6, std::string(tag) + "-time", "t=" << t); return; }
    if (std::fabs((double)(k.closest - r)) < 1e-6 * size) { c.label("grazing"); return; }
    VP_CHECK(c, got == k.hit, tag, "reports " << got << " but the closest approach is " << (double)k.closest << " and the radius " << (double)r << " (distance at start " << (double)k.start << ")"); if (!k.hit) return;
    double tl = 1e-6 * size; VP_CHECK(c, std::fabs(t - (double)k.t) * std::sqrt((double)dt(v, v)) <= tl, std::string(tag) + "-time", "t=" << t << " expected " << (double)k.t);
    L Q = lp(q), C = o + (LD)t * v; LD on = dsh(Q, s); L e = Q - C; LD d = std::sqrt(dt(e, e));
    if (k.start > r) VP_CHECK(c, on <= tl && std::fabs((double)(d - r)) <= tl, std::string(tag) + "-point", "contact " << sh(q) << " is " << (double)on << " off the shape and " << (double)d << " from the centre, radius " << (double)r);
    else if (overlapq) VP_CHECK(c, on <= tl && std::fabs((double)(d - k.start)) <= tl, std::string(tag) + "-overlap-point", "already overlapping: point " << sh(q) << " is " << (double)on << " off the shape and " << (double)d << " from the centre, closest is " << (double)k.start); }
static V aim(Case& c, V from, V at, I m) { V v; switch (c.draw(4)) { case 0: v = gx::pt(c, m); break; case 1: v = at - from + gx::pt(c, 2); break; case 2: { V e = c.pick<V>({V(1, 0), V(-1, 0), V(0, 1), V(0, -1), V(1, 1), V(-1, 2)}); v = c.range(1, 3) * e; break; } default: v = at - from; } if (v == V(0, 0)) v = V(1, 0); return v; }

VP_ASPECT(sphere_segment, 300000, 8000000, "moving disc against a proper lattice segment; non-trivial: first contact after the start") {
    I m = c.pick<I>({3, 5, 8, 20}); double sc = c.pick<double>({1.0, 0.5, 0.1, 7.0}); V a = gx::pt(c, m), b = gx::pt(c, m); if (a == b) b = b + V(1, 0); V o = c.chance(1, 4) ? a + c.around(3) * (b - a) : gx::pt(c, 2 * m), v = aim(c, o, c.chance(1, 2) ? a : b, m); double r4 = c.range(1, 4 * m) * 0.25, ts = c.pick<double>({1.0, 0.25, 3.0});
    VP_NOTE(c, "disc " << o << " r " << r4 << " velocity " << v << " segment " << a << b << " scale " << sc << "," << ts);
    Sh_ s{l(a, sc), l(b, sc)}; Contact k = contact(l(o, sc), l(v, sc * ts), r4 * (LD)sc, s); if (k.hit && k.t > 0) c.nontrivial(); c.label_if(k.start < r4 * sc, "overlapping at start");
    double t = -9; P2 q(1e9, 1e9); auto res = moving_sphere_segment_intersection(C2(P(o, sc), r4 * sc), Vec(v, sc * ts), Seg(a, b, sc), t, q, cmp());
    check(c, "moving_sphere_segment_intersection", k, l(o, sc), l(v, sc * ts), r4 * sc, s, res.is_intersecting(), t, q, false, (m + 1) * sc); VP_CHECK(c, bool(res) == res.is_intersecting(), "moving_sphere_segment-bool", "flag and bool differ");
}
VP_ASPECT(sphere_box, 400000, 10000000, "moving disc against solid boxes, axis-aligned and oriented (right-handed axes); non-trivial: first contact after the start") {
    I m = c.pick<I>({3, 5, 8, 20}); double sc = c.pick<double>({1.0, 0.5, 0.1, 7.0}), ts = c.pick<double>({1.0, 0.25, 3.0}); Trip p = c.chance(1, 2) ? Trip{1, 0, 1} : trip(c); V U(p.a, p.b), W(-p.b, p.a), ctr = gx::pt(c, m); I hu = c.range(1, std::max<I>(1, m / 2)), hv = c.range(1, std::max<I>(1, m / 2)); Poly g{ctr - hu * U - hv * W, ctr + hu * U - hv * W, ctr + hu * U + hv * W, ctr - hu * U + hv * W};
    V o = c.chance(1, 6) ? ctr + gx::pt(c, 1) : ctr + gx::pt(c, 2 * m * p.h), v = aim(c, o, c.chance(2, 3) ? g[c.draw(4)] : ctr, m * p.h); double r = c.range(1, 4 * m) * 0.25 * (c.chance(1, 2) ? p.h : 1);
    VP_NOTE(c, "disc " << o << " r " << r << " velocity " << v << " box " << g << " scale " << sc << "," << ts);
    Sh_ s; for (auto w : g) s.push_back(l(w, sc)); Contact k = contact(l(o, sc), l(v, sc * ts), r * (LD)sc, s); if (k.hit && k.t > 0) c.nontrivial(); c.label_if(k.start < r * sc, "overlapping at start"); c.label_if(k.start == 0, "centre inside");
    double size = (2 * m * p.h + 1) * sc; C2 d(P(o, sc), r * sc);
    { double t = -9; P2 q(1e9, 1e9); OB ob(P(ctr, sc), V2((double)p.a / p.h, (double)p.b / p.h), V2(-(double)p.b / p.h, (double)p.a / p.h), hu * p.h * sc, hv * p.h * sc); auto res = moving_sphere_obb_intersection(d, Vec(v, sc * ts), ob, t, q, cmp()); check(c, "moving_sphere_obb_intersection", k, l(o, sc), l(v, sc * ts), r * sc, s, res.is_intersecting(), t, q, true, size); }
    if (p.h == 1 && p.a == 1) { double t = -9; P2 q(1e9, 1e9); bool res = moving_sphere_aabb_intersection(d, Vec(v, sc * ts), BB(P(g[0], sc), P(g[2], sc)), t, q, cmp()); check(c, "moving_sphere_aabb_intersection", k, l(o, sc), l(v, sc * ts), r * sc, s, res, t, q, true, size); }
}
template <int K, typename PT, typename VE, typename S> static void spheres(Case& c) {
    I m = c.pick<I>({3, 5, 8, 20}); double sc = c.pick<double>({1.0, 0.5, 0.1, 7.0}); I a[3], b[3], v[3], w[3]; for (int k = 0; k < 3; ++k) { a[k] = c.around(m); b[k] = c.around(m); v[k] = c.around(4); w[k] = c.around(4); } if (c.chance(1, 2)) for (int k = 0; k < 3; ++k) { v[k] = b[k] - a[k] + (c.chance(1, 3) ? c.around(1) : 0); w[k] = 0; } if (K == 2) a[2] = b[2] = v[2] = w[2] = 0; I r0 = c.range(1, m), r1 = c.range(1, m);
    VP_NOTE(c, K << "d spheres (" << a[0] << "," << a[1] << "," << a[2] << ") r " << r0 << " v (" << v[0] << "," << v[1] << "," << v[2] << "), (" << b[0] << "," << b[1] << "," << b[2] << ") r " << r1 << " v (" << w[0] << "," << w[1] << "," << w[2] << ") scale " << sc);
    I A = 0, B = 0, C = -(r0 + r1) * (r0 + r1); PT p, q; VE x, y; for (int k = 0; k < K; ++k) { I s = b[k] - a[k], u = w[k] - v[k]; A += u * u; B += u * s; C += s * s; p[k] = a[k] * sc; q[k] = b[k] * sc; x[k] = v[k] * sc; y[k] = w[k] * sc; } I D = B * B - A * C; bool hit = C < 0 || (A > 0 && B < 0 && D >= 0); LD t0 = C < 0 ? 0 : hit ? (-B - std::sqrt((LD)D)) / A : 0; if (hit && C > 0) c.nontrivial(); c.label_if(D == 0 && A > 0, "grazing"); c.label_if(C < 0, "overlapping at start"); if (C == 0 && sc == 0.1) return; if (D == 0 && A > 0 && sc == 0.1) return;
    if (C == 0) c.label("touching at start");
    S s0(p, r0 * sc), s1(q, r1 * sc); double t = -9; PT z; for (int k = 0; k < K; ++k) z[k] = 1e9; bool h = moving_sphere_sphere_intersection(s0, s1, x, y, t, z, cmp()); double tl = 1e-5 * (m + 1) * sc; if (c.chance(1, 2)) VP_CHECK(c, moving_sphere_sphere_intersection(s0, s1, x, y, cmp()) == h, "moving_sphere_sphere-bool", "overloads differ");
    VP_CHECK(c, h == hit, "moving_sphere_sphere_intersection", "reports " << h << " expected " << hit); if (!hit) return; VP_CHECK(c, std::fabs(t - (double)t0) <= 1e-5, "moving_sphere_sphere-time", "t=" << t << " expected " << (double)t0);
    if (C >= 0) { LD d0 = 0, d1 = 0; for (int k = 0; k < K; ++k) { d0 += std::pow((LD)z[k] - (p[k] + t0 * x[k]), 2); d1 += std::pow((LD)z[k] - (q[k] + t0 * y[k]), 2); } VP_CHECK(c, std::fabs((double)std::sqrt(d0) - r0 * sc) <= tl && std::fabs((double)std::sqrt(d1) - r1 * sc) <= tl, "moving_sphere_sphere-point", "contact is " << (double)std::sqrt(d0) << " and " << (double)std::sqrt(d1) << " from the centres, radii " << r0 * sc << "," << r1 * sc); }
}
VP_ASPECT(sphere_sphere, 400000, 10000000, "two moving discs/spheres with lattice centres and velocities; non-trivial: contact after the start") { if (c.chance(1, 2)) spheres<2, P2, V2, C2>(c); else spheres<3, P3, V3, C3>(c); }

//! side of the plane n.x = d: exact flags
template <typename R> static void plane_check(Case& c, const char* tag, LD d0, LD rate, LD r, const R& res, double t, LD qoff, LD qcentre, double size) {
    // d0 signed distance at start, rate its derivative (both exact up to rounding)
    if (std::fabs((double)(std::fabs((double)d0) - r)) < 1e-8 * size && !(std::fabs((double)(std::fabs((double)d0) - r)) < 1e-13 * size)) return; bool over = std::fabs((double)d0) < r - 1e-12L * size, touch = !over && std::fabs((double)(std::fabs((double)d0) - r)) <= 1e-12L * size, away = d0 * rate >= 0;
    bool hit = over || touch || d0 * rate < 0; VP_CHECK(c, res.is_intersecting() == hit && bool(res) == hit, tag, "intersecting " << res.is_intersecting() << " expected " << hit);
    VP_CHECK(c, res.is_moving_away() == away || std::fabs((double)(d0 * rate)) < 1e-9, std::string(tag) + "-away", "moving away " << res.is_moving_away() << " expected " << away); if (!hit) return;
    VP_CHECK(c, res.is_touching() == touch, std::string(tag) + "-touching", "touching " << res.is_touching() << " expected " << touch);
    LD want = over || touch ? 0 : (std::fabs((double)d0) - r) / std::fabs((double)rate); VP_CHECK(c, std::fabs((double)((t - want) * std::fabs((double)rate))) <= 1e-9 * size, std::string(tag) + "-time", "t=" << t << " expected " << (double)want);
    LD wantc = over || touch ? std::fabs((double)d0) : r; VP_CHECK(c, std::fabs((double)qoff) <= 1e-8 * size && std::fabs((double)(qcentre - wantc)) <= 1e-8 * size, std::string(tag) + "-point", "point is " << (double)qoff << " off the plane and " << (double)qcentre << " from the centre, expected " << (double)wantc); }
VP_ASPECT(sphere_plane, 300000, 8000000, "moving disc against a 2d line and sphere against a plane, incl. exactly touching starts; non-trivial: contact after the start") {
    I m = c.pick<I>({3, 5, 8, 20}); double sc = c.pick<double>({1.0, 0.5, 4.0, 0.015625}); double t = -9;
    if (c.chance(1, 2)) { Trip p = trip(c); V a = gx::pt(c, m), u(p.a, p.b), n(-p.b, p.a), o = gx::pt(c, m * 2), v = gx::pt(c, 4); I dn = gx::dot(o - a, n); double r = c.chance(1, 4) && dn ? std::fabs((double)dn) / p.h : c.range(1, 4 * m) * 0.25; if (v == V(0, 0)) v = V(1, 0);
        VP_NOTE(c, "disc " << o << " r " << r << " velocity " << v << " line through " << a << " direction " << u << " scale " << sc); P2 q(1e9, 1e9); line<P2> ln(P(a, sc), V2((double)p.a / p.h, (double)p.b / p.h)); auto res = moving_sphere_plane_intersection(C2(P(o, sc), r * sc), Vec(v, sc), ln, t, q, cmp()); LD d0 = (LD)dn / p.h * sc, rate = (LD)gx::dot(v, n) / p.h * sc; if (d0 * rate < 0 && std::fabs((double)d0) > r * sc) c.nontrivial();
        LD N0 = (LD)n.x / p.h, N1 = (LD)n.y / p.h, off = (q[0] - a.x * (LD)sc) * N0 + (q[1] - a.y * (LD)sc) * N1, qc = std::hypot((double)(q[0] - (o.x + t * v.x) * sc), (double)(q[1] - (o.y + t * v.y) * sc)); plane_check(c, "moving_sphere_plane-2d", d0, rate, r * sc, res, t, off, qc, (m + 1) * sc); }
    else { struct N { int x, y, z, h; }; N n = c.pick<N>({{0, 0, 1, 1}, {1, 2, 2, 3}, {-2, 1, 2, 3}, {2, 3, 6, 7}, {0, -3, 4, 5}, {-1, 0, 0, 1}, {1, 4, -8, 9}}); I a[3], o[3], v[3]; for (int k = 0; k < 3; ++k) { a[k] = c.around(m); o[k] = c.around(2 * m); v[k] = c.around(4); } if (!v[0] && !v[1] && !v[2]) v[2] = -1; I dn = (o[0] - a[0]) * n.x + (o[1] - a[1]) * n.y + (o[2] - a[2]) * n.z, vn = v[0] * n.x + v[1] * n.y + v[2] * n.z; double r = c.chance(1, 4) && dn ? std::fabs((double)dn) / n.h : c.range(1, 4 * m) * 0.25;
        VP_NOTE(c, "sphere (" << o[0] << "," << o[1] << "," << o[2] << ") r " << r << " velocity (" << v[0] << "," << v[1] << "," << v[2] << ") plane (" << n.x << "," << n.y << "," << n.z << ")/" << n.h << " through (" << a[0] << "," << a[1] << "," << a[2] << ") scale " << sc);
        P3 q(1e9, 1e9, 1e9); int ux = n.y, uy = -n.x, uz = 0; if (!ux && !uy) ux = 1; plane<P3> pl(P3(a[0] * sc, a[1] * sc, a[2] * sc), V3(ux, uy, uz), V3(n.y * uz - n.z * uy, n.z * ux - n.x * uz, n.x * uy - n.y * ux)); auto res = moving_sphere_plane_intersection(C3(P3(o[0] * sc, o[1] * sc, o[2] * sc), r * sc), V3(v[0] * sc, v[1] * sc, v[2] * sc), pl, t, q, cmp()); LD d0 = (LD)dn / n.h * sc, rate = (LD)vn / n.h * sc; if (d0 * rate < 0 && std::fabs((double)d0) > r * sc) c.nontrivial();
        LD off = 0, qc = 0; int nn[3] = {n.x, n.y, n.z}; for (int k = 0; k < 3; ++k) { off += (q[k] - a[k] * (LD)sc) * nn[k] / n.h; LD e = q[k] - (o[k] + (LD)t * v[k]) * sc; qc += e * e; } plane_check(c, "moving_sphere_plane-3d", d0, rate, r * sc, res, t, off, std::sqrt(qc), (m + 1) * sc); }
}

//! motion of B relative to A hits A: ray from 0 along v against the Minkowski difference hull(a - b); exact entry/exit
struct TT { bool hit; Q in; bool inf; Q out; bool touch; };
static TT sweep(const Poly& A, const Poly& B, V w) { // w = velocity of B relative to A
    Poly d; for (auto a : A) for (auto b : B) d.push_back(a - b); Poly h = gx::hull(d); TT k{true, Q(0), w == V(0, 0), Q(0), false}; bool have = false, inpos = false; Q in(0), out(0);
    for (std::size_t i = 0; i < h.size() && k.hit; ++i) { V e = h[(i + 1) % h.size()] - h[i]; I s0 = gx::cross(e, V(0, 0) - h[i]), s1 = gx::cross(e, w); // inside: s0 + t s1 >= 0
        if (s0 == 0 || s1 == 0) if (s1 == 0 && s0 == 0) k.touch = true; if (s1 == 0) { if (s0 < 0) k.hit = false; } else { Q t(-s0, s1); if (s1 > 0) { if (t > in) { in = t; inpos = true; } } else { if (t < Q(0)) k.hit = false; else if (!have || t < out) { out = t; have = true; } } } }
    if (have && out < in) k.hit = false; if (have && out == in && k.hit) k.touch = true; k.in = in; k.inf = !have; k.out = out; return k; }
static void sat_check(Case& c, const char* tag, const TT& k, bool got, double tf, double tl, double tmax, double ts, double exact) {
    LD in = (LD)k.in.n / k.in.d / ts, out = k.inf ? std::numeric_limits<LD>::infinity() : (LD)k.out.n / k.out.d / ts; if (k.touch) { c.label("grazing"); return; } if (std::fabs((double)in - tmax) < 1e-7) return; bool want = k.hit && in <= tmax; if (exact < 1 && k.hit && !k.inf && out < 1e-7) return; if (exact < 1 && !k.hit) { /* distance is a lattice quantity: far from zero */ }
    VP_CHECK(c, got == want, tag, "reports " << got << " expected " << want << " (contact from " << (double)in << " to " << (double)out << ", horizon " << tmax << ")"); if (!want) return; double rel = 1e-8 * (1 + (double)std::fabs((double)in));
    VP_CHECK(c, std::fabs(tf - (double)in) <= rel, std::string(tag) + "-first", "tfirst=" << tf << " expected " << (double)in); VP_CHECK(c, k.inf ? std::isinf(tl) : std::fabs(tl - (double)out) <= 1e-8 * (1 + std::fabs((double)out)), std::string(tag) + "-last", "tlast=" << tl << " expected " << (double)out); }
VP_ASPECT(polygons, 300000, 8000000, "two moving convex lattice polygons (up to 12 vertices, any start vertex); non-trivial: contact after the start") {
    I m = c.pick<I>({3, 5, 8, 20}); Poly a = gx::rotate_start(c, gx::gen_convex(c, m, 12)), b = gx::rotate_start(c, gx::gen_convex(c, m, 12)); b = gx::translate(b, gx::pt(c, 2 * m)); V v = gx::pt(c, 4), w = c.chance(1, 2) ? v + a[0] - b[0] + gx::pt(c, 1) : gx::pt(c, 4); double sc = c.pick<double>({1.0, 0.5, 4.0, 0.015625}), ts = c.pick<double>({1.0, 0.5, 2.0}), tmax = c.pick<double>({1e300, 2.0, 0.7, std::numeric_limits<double>::infinity()});
    if (c.chance(1, 4)) std::reverse(a.begin(), a.end()); if (c.chance(1, 4)) std::reverse(b.begin(), b.end());
    VP_NOTE(c, "polygons " << a << " v " << v << ", " << b << " v " << w << " scale " << sc << "," << ts << " horizon " << tmax);
    TT k = sweep(a, b, w - v); if (k.hit && k.in > Q(0)) c.nontrivial(); c.label_if(k.hit && k.in == Q(0), "overlapping at start"); double tf = -9, tl = -9; bool r = moving_convex_polygons_intersection(Pg(a, sc), Vec(v, sc * ts), Pg(b, sc), Vec(w, sc * ts), tmax, tf, tl, cmp()); sat_check(c, "moving_convex_polygons_intersection", k, r, tf, tl, tmax, ts, 1);
}
VP_ASPECT(boxes, 300000, 8000000, "two moving oriented boxes with rational axes; non-trivial: contact after the start") {
    I m = c.pick<I>({2, 3, 5, 8}); Poly g[2]; Trip p[2]; V ctr[2]; I hu[2], hv[2]; for (int i = 0; i < 2; ++i) { p[i] = trip(c); ctr[i] = gx::pt(c, (i + 1) * m * 6); hu[i] = c.range(1, m); hv[i] = c.range(1, m); V U(p[i].a, p[i].b), W(-p[i].b, p[i].a); g[i] = Poly{ctr[i] - hu[i] * U - hv[i] * W, ctr[i] + hu[i] * U - hv[i] * W, ctr[i] + hu[i] * U + hv[i] * W, ctr[i] - hu[i] * U + hv[i] * W}; }
    if (c.chance(1, 3)) ctr[1] = ctr[0]; V v = gx::pt(c, 4), w = c.chance(1, 2) ? v + ctr[0] - ctr[1] + gx::pt(c, 3) : gx::pt(c, 4); for (int i = 0; i < 2; ++i) { V U(p[i].a, p[i].b), W(-p[i].b, p[i].a); g[i] = Poly{ctr[i] - hu[i] * U - hv[i] * W, ctr[i] + hu[i] * U - hv[i] * W, ctr[i] + hu[i] * U + hv[i] * W, ctr[i] - hu[i] * U + hv[i] * W}; }
    double sc = c.pick<double>({1.0, 0.5, 4.0, 0.015625}), ts = c.pick<double>({1.0, 0.5, 2.0}), tmax = c.pick<double>({1e300, 2.0, 0.7}); bool left = c.chance(1, 4);
    VP_NOTE(c, "boxes " << g[0] << " v " << v << ", " << g[1] << " v " << w << " scale " << sc << "," << ts << " horizon " << tmax);
    TT k = sweep(g[0], g[1], w - v); if (k.hit && k.in > Q(0)) c.nontrivial(); auto ob = [&](int i) { double s = left ? -1 : 1; return OB(P(ctr[i], sc), V2((double)p[i].a / p[i].h, (double)p[i].b / p[i].h), V2(-s * p[i].b / p[i].h, s * p[i].a / p[i].h), hu[i] * p[i].h * sc, hv[i] * p[i].h * sc); };
    double tf = -9, tl = -9; bool r = moving_obb_obb_intersection(ob(0), Vec(v, sc * ts), ob(1), Vec(w, sc * ts), tmax, tf, tl); // a speed of zero along an axis is only zero up to rounding
    if (k.hit && !k.inf && w == v) return; sat_check(c, "moving_obb_obb_intersection", k, r, tf, tl, tmax, ts, 0.5);
}
