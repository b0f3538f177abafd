// P28: vector products, magnitudes, normals and interpolation against exact integer arithmetic.
#include "gl.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/algebra/exterior_product.hpp>
#include <geometrix/algebra/vector_projection.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/arithmetic/vector/normalize_at_index.hpp>
#include <geometrix/arithmetic/vector/bisect.hpp>
#include <geometrix/arithmetic/vector/lerp.hpp>
#include <geometrix/arithmetic/vector/slerp.hpp>
#include <geometrix/tensor/is_null.hpp>
#include <array>
#include <limits>
using namespace geometrix; using namespace gl; using vp::Case;
static const LD PI = 3.141592653589793238462643383279502884L;

template <std::size_t N> struct Prod {
    typedef vector<double, N> VN; typedef vector<int, N> VI; typedef point<double, N> PN;
    template <std::size_t K, bool End> struct Idx { static void go(Case& c, const VN& v, const std::array<I, N>& a, LD len, double s) {
        double w = (double)(a[K] * (LD)s / (len * s)), g = normal_at_index<K>(v); VP_CHECK(c, std::fabs(g - w) < 1e-14, "normal-at-index", "index " << K << " got " << g << " expected " << w); Idx<K + 1, K + 1 == N>::go(c, v, a, len, s); } };
    template <std::size_t K> struct Idx<K, true> { static void go(Case&, const VN&, const std::array<I, N>&, LD, double) {} };
    static void go(Case& c) {
        I m = c.pick<I>({1, 3, 10, 100, 5000}); double s = c.pick<double>({1., 0.5, 0.25, 16.}); std::array<I, N> a, b; VN u, v; VI iu, iv; PN p, q; I dot = 0, aa = 0, bb = 0; int nza = 0;
        for (std::size_t i = 0; i < N; ++i) { a[i] = c.around(m); b[i] = c.around(m); if (c.chance(1, 4)) a[i] = 0; if (c.chance(1, 6)) b[i] = -a[i]; u[i] = (double)a[i] * s; v[i] = (double)b[i] * s; iu[i] = (int)a[i]; iv[i] = (int)b[i]; p[i] = u[i]; q[i] = v[i]; dot += a[i] * b[i]; aa += a[i] * a[i]; bb += b[i] * b[i]; if (a[i]) ++nza; }
        if (c.noting) { std::ostream& o = c.os; o << "dimension " << N << " scale " << s << " a"; for (I x : a) o << " " << x; o << " b"; for (I x : b) o << " " << x; } if (nza >= 2 && dot) c.nontrivial();
        double s2 = s * s; VP_CHECK(c, dot_product(u, v) == (double)dot * s2 && dot_product(v, u) == (double)dot * s2, "dot", "dot_product = " << dot_product(u, v) << " expected " << (double)dot * s2);
        double e = get(u * v); VP_CHECK(c, e == (double)dot * s2, "dot-expression", "u * v = " << e << " expected " << (double)dot * s2); VP_CHECK(c, dot_product(iu, iv) == dot, "dot-int", "int dot_product = " << dot_product(iu, iv) << " expected " << dot);
        double ms = magnitude_sqrd(u), mg = magnitude(u), me = get(mag(u)); double wm = std::sqrt((double)aa) * s; VP_CHECK(c, ms == (double)aa * s2, "magnitude-sqrd", "magnitude_sqrd = " << ms << " expected " << (double)aa * s2); VP_CHECK(c, std::fabs(mg - wm) <= 1e-14 * wm && mg == me, "magnitude", "magnitude = " << mg << ", mag = " << me << " expected " << wm);
        bool z = true; for (I x : a) z = z && x == 0; VP_CHECK(c, is_null(u) == z && is_null(iu) == z, "is-null", "not " << z); double eps = c.pick<double>({0.1, 0.6, 3.3}); bool ez = true; for (std::size_t i = 0; i < N; ++i) ez = ez && std::fabs(u[i]) < eps; VP_CHECK(c, is_null(u, cmp(eps)) == ez, "is-null-tolerance", "not " << ez << " with tolerance " << eps);
        if (aa) { LD len = sqrtl((LD)aa); auto n = normalize(u); VN ne = norm(u); for (std::size_t i = 0; i < N; ++i) VP_CHECK(c, std::fabs(n[i] - (double)(a[i] / len)) < 1e-14 && std::fabs(ne[i] - n[i]) < 1e-14, "normalize", "component " << i << " " << n[i] << " norm() " << ne[i]); Idx<0, N == 0>::go(c, u, a, len, s);
            double sp = scalar_projection(v, n); VP_CHECK(c, std::fabs(sp - (double)(dot * (LD)s / len)) < 1e-13 * std::sqrt((double)bb + 1) * s, "scalar-projection", "got " << sp); auto vp_ = vector_projection(v, u); for (std::size_t i = 0; i < N; ++i) { double w = (double)((LD)dot * a[i] / aa) * s; VP_CHECK(c, std::fabs(vp_[i] - w) < 1e-13 * (std::sqrt((double)bb) + 1) * s, "vector-projection", "component " << i << " " << vp_[i] << " expected " << w); }
            // lerp: direction of the point between, at unit length
            I num = c.range(0, 8); LD t = num / 8.0L; LD w[N], l2 = 0; for (std::size_t i = 0; i < N; ++i) { w[i] = a[i] + t * (b[i] - a[i]); l2 += w[i] * w[i]; } if (l2 > 1e-6L) { l2 = sqrtl(l2); auto g = lerp(u, v, (double)t); for (std::size_t i = 0; i < N; ++i) VP_CHECK(c, std::fabs(g[i] - (double)(w[i] / l2)) < 1e-10, "lerp", "t " << num << "/8 component " << i << " " << g[i] << " expected " << (double)(w[i] / l2)); }
            if (bb) { auto nb = normalize(v); LD cd = dot / (len * sqrtl((LD)bb)); VP_CHECK(c, is_antiparallel(u, v, cmp(1e-9)) == (cd < -1 + 1e-9L), "antiparallel", "cosine " << (double)cd);
                if (cd > -0.999999L && cd < 0.999999L) { LD th = acosl(cd), lb = sqrtl((LD)bb); auto g = slerp(n, nb, (double)t); for (std::size_t i = 0; i < N; ++i) { LD x = (sinl((1 - t) * th) * a[i] / len + sinl(t * th) * b[i] / lb) / sinl(th); VP_CHECK(c, std::fabs(g[i] - (double)x) < 1e-8, "slerp", "t " << num << "/8 component " << i << " " << g[i] << " expected " << (double)x); } }
                else if (cd > 0.9999999L) { auto g = slerp(n, nb, (double)t); for (std::size_t i = 0; i < N; ++i) VP_CHECK(c, std::fabs(g[i] - (double)(a[i] / len)) < 1e-3 && std::isfinite(g[i]), "slerp-parallel", "component " << i << " " << g[i]); } } }
    }
};
VP_ASPECT(products, 4500000, 30000000, "two integer vectors of dimension 2-5 times a power of two, components up to 5000; non-trivial: at least two non-zero components and a non-zero dot product") {
    switch (c.draw(4)) { case 0: Prod<2>::go(c); break; case 1: Prod<3>::go(c); break; case 2: Prod<4>::go(c); break; default: Prod<5>::go(c); }
}
VP_ASPECT(cross, 3000000, 20000000, "three integer 3D vectors, often dependent, and two 2D ones; non-trivial: the first two independent") {
    I m = c.pick<I>({1, 3, 30, 1000}); double s = c.pick<double>({1., 0.5, 4.}); I a[3], b[3], d[3]; for (int i = 0; i < 3; ++i) { a[i] = c.around(m); b[i] = c.around(m); d[i] = c.around(m); } if (c.chance(1, 8)) for (int i = 0; i < 3; ++i) b[i] = -2 * a[i]; if (c.chance(1, 8)) for (int i = 0; i < 3; ++i) d[i] = a[i] - b[i];
    VP_NOTE(c, "a " << a[0] << "," << a[1] << "," << a[2] << " b " << b[0] << "," << b[1] << "," << b[2] << " c " << d[0] << "," << d[1] << "," << d[2] << " scale " << s);
    V3 A(a[0] * s, a[1] * s, a[2] * s), B(b[0] * s, b[1] * s, b[2] * s), D(d[0] * s, d[1] * s, d[2] * s); I w[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; if (w[0] || w[1] || w[2]) c.nontrivial();
    V3 g = A ^ B; V3 h; h <<= B ^ A; for (int i = 0; i < 3; ++i) VP_CHECK(c, g[i] == w[i] * s * s && h[i] == -w[i] * s * s, "cross", "component " << i << " " << g[i] << " and reversed " << h[i] << " expected +-" << w[i] * s * s);
    V3 t = (A ^ B) + D; VP_CHECK(c, t[0] == w[0] * s * s + d[0] * s && t[1] == w[1] * s * s + d[1] * s && t[2] == w[2] * s * s + d[2] * s, "cross-sum", "A^B+C wrong: " << t[0] << "," << t[1] << "," << t[2]); double tp = get((A ^ B) * D), want = (double)(w[0] * d[0] + w[1] * d[1] + w[2] * d[2]) * s * s * s; VP_CHECK(c, tp == want, "triple-product", "(A^B)*C = " << tp << " expected " << want);
    double vol = exterior_product_volume(A, B, D); VP_CHECK(c, vol == want, "volume", "exterior_product_volume = " << vol << " expected " << want);
    double ar = exterior_product_area(V2(A[0], A[1]), V2(B[0], B[1])); VP_CHECK(c, ar == (double)w[2] * s * s, "area", "2D exterior_product_area = " << ar << " expected " << w[2] * s * s);
}
static V nz(Case& c, I m) { V v = gx::pt(c, m); return v == V(0, 0) ? V(1, 0) : v; }
VP_ASPECT(normals, 4500000, 30000000, "two non-zero lattice vectors of very different lengths, often parallel, opposite or perpendicular; non-trivial: different lengths and not parallel") {
    I m = c.pick<I>({1, 2, 6, 40, 1000}); V a = nz(c, m), b = nz(c, c.pick<I>({1, 2, 6, 40, 1000})); if (c.chance(1, 6)) b = c.pick<I>({1, 2, 3, -1, -2, -3, -7}) * a; if (c.chance(1, 10)) b = c.chance(1, 2) ? V(-a.y, a.x) : V(a.y, -a.x); double s = c.pick<double>({1., 0.5, 0.1, 1. / 3, 7.}), s2 = c.pick<double>({1., 0.5, 0.1, 1. / 3, 7.});
    VP_NOTE(c, "lo " << a << " times " << s << " hi " << b << " times " << s2); V2 u = Vec(a, s), v = Vec(b, s2); I cr = gx::cross(a, b), dt = gx::dot(a, b); if (cr && gx::dot(a, a) != gx::dot(b, b)) c.nontrivial();
    V2 L = left_normal(u), R = right_normal(u), Pp = perp(u), OL = oriented_normal<oriented_left>(u), OR = oriented_normal<oriented_right>(u); VP_CHECK(c, L[0] == -u[1] && L[1] == u[0] && Pp[0] == L[0] && Pp[1] == L[1] && OL[0] == L[0] && OL[1] == L[1], "left-normal", "left " << L[0] << "," << L[1] << " perp " << Pp[0] << "," << Pp[1] << " oriented " << OL[0] << "," << OL[1]); VP_CHECK(c, R[0] == u[1] && R[1] == -u[0] && OR[0] == R[0] && OR[1] == R[1], "right-normal", "right " << R[0] << "," << R[1] << " oriented " << OR[0] << "," << OR[1]);
    LD th = atan2l((LD)cr, (LD)dt); if (th <= 0) th += 2 * PI; LD base = atan2l((LD)a.y, (LD)a.x) + th / 2; double wx = (double)cosl(base), wy = (double)sinl(base); auto g = bisect(u, v);
    // scales that are not powers of two can round exactly parallel vectors to either side; the bisector is then anywhere consistent with that side
    bool amb = cr == 0 && dt > 0; double off = std::hypot(g[0] - wx, g[1] - wy); if (amb) { bool ex = (s == 1 || s == 0.5 || s == 7) && (s2 == 1 || s2 == 0.5 || s2 == 7); if (!ex) off = std::min(off, std::hypot(g[0] + wx, g[1] + wy)); } VP_CHECK(c, off < 1e-12, "bisect", "bisect = " << g[0] << "," << g[1] << " expected " << wx << "," << wy);
    if (cr) { auto h = bisect_not_antiparallel(u, v); VP_CHECK(c, std::hypot(h[0] - wx, h[1] - wy) < 1e-9, "bisect-not-antiparallel", "got " << h[0] << "," << h[1] << " expected " << wx << "," << wy); }
}
