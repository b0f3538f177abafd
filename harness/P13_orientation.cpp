// P13: orientation tests and Shewchuk's robust predicates against exact arithmetic.
#include "gl.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <boost/multiprecision/cpp_int.hpp>
using namespace geometrix; using namespace gl; using vp::Case;
extern "C" { double vp_o2(int, double*, double*, double*); double vp_o3(int, double*, double*, double*, double*); double vp_ic(int, double*, double*, double*, double*); double vp_is(int, double*, double*, double*, double*, double*); void vp_pinit(); int vp_sum(int, int, double*, int, double*, double*); int vp_grow(int, int, double*, double, double*); int vp_scale(int, int, double*, double, double*); int vp_compress(int, double*, double*); double vp_estimate(int, double*); }
typedef boost::multiprecision::cpp_int Z;
static struct Init { Init() { vp_pinit(); } } init_;
//! coordinates are integers below 2^53 times 2^-e: exact as Z
static double coord(Case& c, int style, I base) { switch (style) { case 0: return (double)c.around(8); case 1: return (double)(base + c.around(4)); default: return (double)(c.around((I)1 << 26) * ((I)1 << 26) + c.around((I)1 << 26)); } }
static int sg(const Z& z) { return z > 0 ? 1 : z < 0 ? -1 : 0; } static int sg(double d) { return d > 0 ? 1 : d < 0 ? -1 : 0; }
static Z z(double d) { return Z((long long)d); }
template <int N> static Z det(const Z (&m)[N][N]) { Z s = 0; for (int i = 0; i < N; ++i) { Z k[N - 1][N - 1]; for (int r = 1; r < N; ++r) for (int q = 0, t = 0; q < N; ++q) if (q != i) k[r - 1][t++] = m[r][q]; Z d = m[0][i] * det(k); if (i & 1) s -= d; else s += d; } return s; }
template <> Z det<1>(const Z (&m)[1][1]) { return m[0][0]; }
//! n points of dimension D; near-degenerate constructions
template <int D> static void points(Case& c, int n, double (*p)[5], bool circle) {
    int style = (int)c.draw(3); I base = c.around((I)1 << 40); for (int i = 0; i < n; ++i) for (int k = 0; k < D; ++k) p[i][k] = coord(c, style, base);
    int con = (int)c.draw(4); if (con == 1) for (int i = D; i < n; ++i) { I t[3] = {c.around(4), c.around(4), 0}; for (int k = 0; k < D; ++k) { I v = (I)p[0][k]; for (int j = 1; j < D && j < n; ++j) v += t[j - 1] * ((I)p[j][k] - (I)p[0][k]); if (std::llabs(v) < ((I)1 << 52)) p[i][k] = (double)v; } } // affine combination: degenerate
    if (con == 2 && circle) { static const I P5[12][2] = {{5, 0}, {4, 3}, {3, 4}, {0, 5}, {-3, 4}, {-4, 3}, {-5, 0}, {-4, -3}, {-3, -4}, {0, -5}, {3, -4}, {4, -3}}; I s = c.pick<I>({1, 7, 1000003, (I)1 << 30}); for (int i = 0; i < n; ++i) { auto q = P5[c.draw(12)]; I h = D == 3 ? (I)c.draw(3) : 0; p[i][0] = (double)(base + s * (h == 1 ? 0 : q[0])); p[i][1] = (double)(base / 3 + s * (h == 2 ? 0 : h == 1 ? q[0] : q[1])); if (D == 3) p[i][2] = (double)(s * (h ? q[1] : 0)); } } // cocircular / cospherical
    if (con) { int i = (int)c.draw(n), k = (int)c.draw(D); p[i][k] += (double)c.around(1); } }
template <int D> static Z orient(double (*p)[5]) { Z m[D][D]; for (int i = 0; i < D; ++i) for (int k = 0; k < D; ++k) m[i][k] = z(p[i][k]) - z(p[D][k]); return det(m); }
template <int D> static Z in(double (*p)[5]) { Z m[D + 1][D + 1]; for (int i = 0; i <= D; ++i) { Z s = 0; for (int k = 0; k < D; ++k) { m[i][k] = z(p[i][k]) - z(p[D + 1][k]); s += m[i][k] * m[i][k]; } m[i][D] = s; } return det(m); }
template <int D> static std::string show(double (*p)[5], int n) { std::ostringstream o; for (int i = 0; i < n; ++i) { o << "("; for (int k = 0; k < D; ++k) o << (k ? "," : "") << (long long)p[i][k]; o << ")"; } return o.str(); }
static const char* KN[3] = {"", "exact", "slow"};
VP_ASPECT(robust, 600000, 15000000, "integers below 2^53 scaled by a power of two: random, clustered, collinear/coplanar/cocircular/cospherical up to one unit; non-trivial: the fast determinant has the wrong sign or the exact one is zero") {
    double p[5][5]; int which = (int)c.draw(4); double sc = c.pick<double>({1.0, 1.0 / 1024, std::ldexp(1.0, -60), 16.0}); Z d; int n; 
    switch (which) { case 0: n = 3; points<2>(c, n, p, false); d = orient<2>(p); break; case 1: n = 4; points<3>(c, n, p, false); d = orient<3>(p); break; case 2: n = 4; points<2>(c, n, p, true); d = in<2>(p); break; default: n = 5; points<3>(c, n, p, true); d = in<3>(p); }
    VP_NOTE(c, (which == 0 ? "orient2d" : which == 1 ? "orient3d" : which == 2 ? "incircle" : "insphere") << (which & 1 ? show<3>(p, n) : show<2>(p, n)) << " * " << sc << " exact sign " << sg(d)); for (auto& r : p) for (auto& x : r) x *= sc; if (sg(d) == 0) c.nontrivial(); c.label_if(sg(d) == 0, "degenerate");
    for (int k = 0; k < 3; ++k) { double r = which == 0 ? vp_o2(k, p[0], p[1], p[2]) : which == 1 ? vp_o3(k, p[0], p[1], p[2], p[3]) : which == 2 ? vp_ic(k, p[0], p[1], p[2], p[3]) : vp_is(k, p[0], p[1], p[2], p[3], p[4]); static const char* T[4] = {"orient2d", "orient3d", "incircle", "insphere"}; VP_CHECK(c, sg(r) == sg(d), std::string(T[which]) + KN[k], "value " << r << " expected sign " << sg(d));
        }
    bool small = true; for (int i = 0; i < n; ++i) for (int k = 0; k < 2 + (which & 1); ++k) small = small && std::fabs(p[i][k]) <= 64 * sc; // products fit: the plain formulas are exact
    if (small) { double r = which == 0 ? vp_o2(3, p[0], p[1], p[2]) : which == 1 ? vp_o3(3, p[0], p[1], p[2], p[3]) : which == 2 ? vp_ic(3, p[0], p[1], p[2], p[3]) : vp_is(3, p[0], p[1], p[2], p[3], p[4]); VP_CHECK(c, sg(r) == sg(d), which == 0 ? "orient2dfast" : which == 1 ? "orient3dfast" : which == 2 ? "incirclefast" : "inspherefast", "value " << r << " expected sign " << sg(d)); c.label("plain formula exact"); }
}
//! exact value of a finite double times 2^300 (all coordinates here are multiples of 2^-300)
static Z zx(double d) { int x; double m = std::frexp(d, &x); if (m == 0) return 0; Z v = Z((long long)std::ldexp(m, 53)); int sh = x - 53 + 300; if (sh < 0) return v >> -sh; return v << sh; }
template <int D> static Z orientx(double (*p)[5]) { Z m[D][D]; for (int i = 0; i < D; ++i) for (int k = 0; k < D; ++k) m[i][k] = zx(p[i][k]) - zx(p[D][k]); return det(m); }
template <int D> static Z inx(double (*p)[5]) { Z m[D + 1][D + 1]; for (int i = 0; i <= D; ++i) { Z s = 0; for (int k = 0; k < D; ++k) { m[i][k] = zx(p[i][k]) - zx(p[D + 1][k]); s += m[i][k] * m[i][k]; } m[i][D] = s; } return det(m); }
VP_ASPECT(tails, 160000, 5000000, "degenerate configurations through the origin whose zero coordinates are replaced by values 30 to 120 binary digits smaller and whose other coordinates move by some units in the last place, so that coordinate differences round; non-trivial: some difference to the last point is inexact and the value computed without the lost digits is zero or has the wrong sign") {
    static const I C5[12][2] = {{5, 0}, {4, 3}, {3, 4}, {0, 5}, {-3, 4}, {-4, 3}, {-5, 0}, {-4, -3}, {-3, -4}, {0, -5}, {3, -4}, {4, -3}};
    static const I S3[15][3] = {{3, 0, 0}, {0, 3, 0}, {0, 0, 3}, {1, 2, 2}, {2, 1, 2}, {2, 2, 1}, {-1, 2, 2}, {2, -1, 2}, {2, 2, -1}, {1, -2, 2}, {-2, 1, 2}, {2, 1, -2}, {1, 2, -2}, {-2, 2, 1}, {2, -2, 1}};
    int which = (int)c.draw(4); const int D = which & 1 ? 3 : 2, n = which == 0 ? 3 : which == 3 ? 5 : 4; double p[5][5] = {}; double S = std::ldexp(1.0, (int)c.pick<I>({0, 0, 20, 40}));
    I q[5][3] = {}; 
    if (which == 0) { I u[2] = {c.around(40), c.around(40)}; for (int i = 1; i < n; ++i) { I k = c.around(30); for (int j = 0; j < D; ++j) q[i][j] = k * u[j]; } }
    else if (which == 1) { I u[3], v[3]; for (int j = 0; j < 3; ++j) { u[j] = c.around(12); v[j] = c.around(12); } for (int i = 1; i < n; ++i) { I k = c.around(9), l = c.around(9); for (int j = 0; j < D; ++j) q[i][j] = k * u[j] + l * v[j]; } }
    else { auto at = [&](I i, int j) { return which == 2 ? C5[i][j] : i < 15 ? S3[i][j] : -S3[i - 15][j]; }; I N = which == 2 ? 12 : 30; I o = c.draw(N); I cen = c.chance(1, 3); for (int i = 0; i < n; ++i) { I r = i == 0 && !cen ? o : (I)c.draw(N); for (int j = 0; j < D; ++j) q[i][j] = at(r, j) - (cen ? 0 : at(o, j)); } }
    int amount = (int)c.draw(4); // how many points are moved
    for (int i = 0; i < n; ++i) for (int j = 0; j < D; ++j) { double x = (double)q[i][j] * S; bool mv = i == 0 || (amount && c.chance(amount, 4));
        if (mv) { if (x == 0) { int e = (int)c.range(30, 120); x = c.chance(1, 4) ? 0 : std::ldexp((double)(c.around(3)), -e) + (c.chance(1, 2) ? std::ldexp((double)c.around(100), -e - 20) : 0); } else { I k = c.around(3); for (; k > 0; --k) x = std::nextafter(x, 1e300); for (; k < 0; ++k) x = std::nextafter(x, -1e300); } } p[i][j] = x; }
    for (int i = n - 1; i > 0; --i) { int k = (int)c.draw(i + 1); for (int j = 0; j < D; ++j) std::swap(p[i][j], p[k][j]); }
    Z d = which == 0 ? orientx<2>(p) : which == 1 ? orientx<3>(p) : which == 2 ? inx<2>(p) : inx<3>(p); bool inexact = false; double r[5][5] = {}; for (int i = 0; i < n - 1; ++i) for (int j = 0; j < D; ++j) { r[i][j] = p[i][j] - p[n - 1][j]; if (zx(r[i][j]) != zx(p[i][j]) - zx(p[n - 1][j])) inexact = true; }
    Z dr = which == 0 ? orientx<2>(r) : which == 1 ? orientx<3>(r) : which == 2 ? inx<2>(r) : inx<3>(r); if (inexact && sg(dr) != sg(d)) c.nontrivial(); c.label_if(inexact, "inexact difference"); c.label_if(sg(d) == 0, "degenerate");
    static const char* T[4] = {"orient2d", "orient3d", "incircle", "insphere"}; std::ostringstream o_; if (c.noting) for (int i = 0; i < n; ++i) { o_ << " ("; for (int j = 0; j < D; ++j) { char b[40]; std::snprintf(b, sizeof b, "%a", p[i][j]); o_ << (j ? ", " : "") << b; } o_ << ")"; }
    VP_NOTE(c, T[which] << " at" << o_.str() << " exact sign " << sg(d));
    for (int k = 0; k < 3; ++k) { double v = which == 0 ? vp_o2(k, p[0], p[1], p[2]) : which == 1 ? vp_o3(k, p[0], p[1], p[2], p[3]) : which == 2 ? vp_ic(k, p[0], p[1], p[2], p[3]) : vp_is(k, p[0], p[1], p[2], p[3], p[4]); VP_CHECK(c, sg(v) == sg(d), std::string(T[which]) + KN[k], "value " << v << " expected sign " << sg(d)); }
}
VP_ASPECT(mantissas, 400000, 5000000, "exactly degenerate configurations (lines, planes, circles, spheres, four points of a circle with a far fifth) with full mantissas and coordinates of different magnitudes, a few coordinates then moved by a unit in the last place or, from zero, by a far smaller full mantissa; non-trivial: the fast determinant has the wrong sign, or some coordinate moved and the exact determinant is not zero") {
    static const I C5[12][2] = {{5, 0}, {4, 3}, {3, 4}, {0, 5}, {-3, 4}, {-4, 3}, {-5, 0}, {-4, -3}, {-3, -4}, {0, -5}, {3, -4}, {4, -3}};
    static const I S3[15][3] = {{3, 0, 0}, {0, 3, 0}, {0, 0, 3}, {1, 2, 2}, {2, 1, 2}, {2, 2, 1}, {-1, 2, 2}, {2, -1, 2}, {2, 2, -1}, {1, -2, 2}, {-2, 1, 2}, {2, 1, -2}, {1, 2, -2}, {-2, 2, 1}, {2, -2, 1}};
    static const I R3[4][2][3] = {{{1, 0, 0}, {0, 1, 0}}, {{1, 2, 2}, {2, 1, -2}}, {{2, 1, -2}, {2, -2, 1}}, {{2, 3, 6}, {3, -6, 2}}};
    int which = (int)c.draw(4); const int D = which & 1 ? 3 : 2, n = which == 0 ? 3 : which == 3 ? 5 : 4; double p[5][5] = {}; int e[3]; auto rich = [&](int b) { return (double)c.around((I)1 << b); }; bool far = false;
    if (which < 2) for (int j = 0; j < 3; ++j) e[j] = (int)c.range(-60, 40); else e[0] = e[1] = e[2] = (int)c.pick<I>({0, -20, 10});
    double w[3] = {}; const bool flat = which > 1 && c.chance(1, 4); bool shift = (which < 2 || flat) && c.chance(1, 2); // four points of a line, five of a plane: also degenerate
    if (!shift && c.chance(1, 2)) for (int j = 0; j < 3; ++j) w[j] = rich((int)c.range(1, 51)); auto sh = [&] { return shift ? std::ldexp(1.0, (int)c.draw(60)) : 1.0; }; // spread along lines through the origin: differences round
    if (which == 0 || (flat && which == 2)) { double u[2] = {rich(46), rich(46)}; for (int i = 0; i < n; ++i) { I k = c.around(20); double t = sh(); for (int j = 0; j < D; ++j) p[i][j] = w[j] + (double)k * u[j] * t; } }
    else if (which == 1 || flat) { double u[3], v[3]; for (int j = 0; j < 3; ++j) { u[j] = rich(45); v[j] = rich(45); } bool row = c.chance(1, 3); for (int i = 0; i < n; ++i) { I k = c.around(20), l = row && i ? 0 : c.around(20); double t = sh(); for (int j = 0; j < D; ++j) p[i][j] = w[j] + ((double)k * u[j] + (double)l * v[j]) * t; } }
    else { double s = rich(46); I pl = (I)c.draw(4), o = (I)c.draw(12); far = which == 3 && c.chance(1, 2); int g = (int)c.pick<I>({0, 10, 30, 60}); for (int i = 0; i < n; ++i) { I q[3] = {}; if (far && i == 4) { for (int j = 0; j < 3; ++j) p[i][j] = std::ldexp(rich(52), g - (int)c.draw(20)); continue; } I r = (I)c.draw(12); if (which == 2 || far) { for (int j = 0; j < D; ++j) q[j] = which == 2 ? C5[r][j] : C5[r][0] * R3[pl][0][j] + C5[r][1] * R3[pl][1][j]; } else { r = (I)c.draw(30); for (int j = 0; j < 3; ++j) q[j] = r < 15 ? S3[r][j] : -S3[r - 15][j]; } for (int j = 0; j < D; ++j) p[i][j] = w[j] + s * (double)q[j]; } (void)o; }
    for (int i = n - 1; i > 0; --i) { int k = (int)c.draw(i + 1); for (int j = 0; j < D; ++j) std::swap(p[i][j], p[k][j]); }
    for (int i = 0; i < n; ++i) for (int j = 0; j < D; ++j) p[i][j] = std::ldexp(p[i][j], e[j]);
    int moves = (int)c.draw(4); for (int m = 0; m < moves; ++m) { int i = (int)c.draw(n), j = (int)c.draw(D); double& x = p[i][j]; if (x == 0) x = std::ldexp(rich(53), e[j] - 53 - (int)c.draw(60)); else { int k = (int)c.around(2); for (; k > 0; --k) x = std::nextafter(x, 1e300); for (; k < 0; ++k) x = std::nextafter(x, -1e300); } }
    Z d = which == 0 ? orientx<2>(p) : which == 1 ? orientx<3>(p) : which == 2 ? inx<2>(p) : inx<3>(p); static const char* T[4] = {"orient2d", "orient3d", "incircle", "insphere"}; std::ostringstream o_; if (c.noting) for (int i = 0; i < n; ++i) { o_ << " ("; for (int j = 0; j < D; ++j) { char b[40]; std::snprintf(b, sizeof b, "%a", p[i][j]); o_ << (j ? ", " : "") << b; } o_ << ")"; }
    VP_NOTE(c, T[which] << " at" << o_.str() << " exact sign " << sg(d)); c.label_if(sg(d) == 0, "degenerate");
    auto f = [&](int k) { return which == 0 ? vp_o2(k, p[0], p[1], p[2]) : which == 1 ? vp_o3(k, p[0], p[1], p[2], p[3]) : which == 2 ? vp_ic(k, p[0], p[1], p[2], p[3]) : vp_is(k, p[0], p[1], p[2], p[3], p[4]); };
    if (sg(f(3)) != sg(d) || (moves && sg(d))) c.nontrivial();
    for (int k = 0; k < 3; ++k) { double v = f(k); VP_CHECK(c, sg(v) == sg(d), std::string(T[which]) + KN[k], "value " << v << " expected sign " << sg(d)); }
}
static Z zs(const double* e, int n) { Z s = 0; for (int i = 0; i < n; ++i) { int x; double m = std::frexp(e[i], &x); Z v = Z((long long)std::ldexp(m, 53)); int sh = x - 53 + 400; if (e[i] != 0) s += v << sh; } return s; } // times 2^400
static int expansion(Case& c, double* e) { int n = (int)c.range(1, 6); double h[8]; int k = 0; double t[8]; for (int i = 0; i < n; ++i) { double v = std::ldexp((double)c.around((I)1 << 40), (int)c.range(-60, 60)); if (!k) { e[0] = v; k = 1; } else { k = vp_grow(1, k, e, v, h); for (int j = 0; j < k; ++j) e[j] = h[j]; } } (void)t; return k; }
VP_ASPECT(expansions, 300000, 8000000, "nonoverlapping expansions of up to 6 components over 120 binary digits of range; non-trivial: more than two components") {
    double e[8], f[8], h[64]; int n = expansion(c, e), m = expansion(c, f); if (n > 2) c.nontrivial(); VP_NOTE(c, "expansions of " << n << " and " << m << " components"); Z E = zs(e, n), F = zs(f, m); auto okx = [&](int k) { for (int i = 0; i < k; ++i) if (!std::isfinite(h[i])) return false; double last = 0; for (int i = 0; i < k; ++i) if (h[i] != 0) { if (last != 0 && !(std::fabs(last) < std::fabs(h[i]))) return false; last = h[i]; } return true; };
    for (int k = 0; k < 7; ++k) { int l = vp_sum(k, n, e, m, f, h); VP_CHECK(c, l >= 1 && l <= n + m && zs(h, l) == E + F, "expansion_sum", "routine " << k << " gives " << l << " components with the wrong value"); VP_CHECK(c, okx(l), "expansion_sum-order", "routine " << k << ": components do not increase"); if (k == 1 || k == 2 || k == 4 || k == 6) for (int i = 0; i < l; ++i) VP_CHECK(c, h[i] != 0 || l == 1, "expansion_sum-zeroelim", "routine " << k << " leaves a zero component"); }
    double b = std::ldexp((double)c.around((I)1 << 40), (int)c.range(-60, 60)); Z B = zs(&b, 1); for (int k = 0; k < 2; ++k) { int l = vp_grow(k, n, e, b, h); VP_CHECK(c, zs(h, l) == E + B, "grow_expansion", "wrong value"); l = vp_scale(k, n, e, b, h); VP_CHECK(c, l <= 2 * n && (zs(h, l) << 400) == E * B, "scale_expansion", "wrong value"); }
    int l = vp_compress(n, e, h); VP_CHECK(c, l <= n && zs(h, l) == E, "compress", "wrong value"); double est = vp_estimate(n, e); double want = 0; { Z a = E; want = a.convert_to<double>() * std::ldexp(1.0, -400); } VP_CHECK(c, std::fabs(est - want) <= std::fabs(want) * 1e-15, "estimate", est << " expected " << want); VP_CHECK(c, std::fabs(h[l - 1] - want) <= std::fabs(want) * 3e-16, "compress-largest", "largest component " << h[l - 1] << " expected about " << want);
}
VP_ASPECT(orientation, 600000, 20000000, "lattice triples and vector pairs, many collinear; non-trivial: collinear") {
    I m = gx::grid(c); V a = gx::pt(c, m), b = gx::pt(c, m), p = c.chance(1, 2) ? gx::pt(c, m) : a + c.around(3) * (b - a); double sc = c.pick<double>({1.0, 0.5, 4.0}); VP_NOTE(c, "points " << a << b << p << " scale " << sc); int w = gx::side(a, b, p); if (!w) c.nontrivial(); auto o = [&](V x, V y, V q) { return (int)get_orientation(P(x, sc), P(y, sc), P(q, sc), cmp()); };
    VP_CHECK(c, o(a, b, p) == w && o(b, p, a) == w && o(p, a, b) == w && o(b, a, p) == -w && o(a, p, b) == -w, "get_orientation", "expected " << w << " got " << o(a, b, p)); VP_CHECK(c, (int)get_orientation(Vec(b - a, sc), Vec(p - a, sc), cmp()) == w, "get_orientation-vectors", "expected " << w);
    orientation_type t = get_orientation(P(a, sc), P(b, sc), P(p, sc), cmp()); VP_CHECK(c, (int)opposite_orientation(t) == -w && opposite_orientation(opposite_orientation(t)) == t, "opposite_orientation", "of " << w);
}
