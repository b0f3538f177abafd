// P30: nested algebra expressions equal plain arithmetic, whatever the nesting, storage type and assignment form.
#include "gl.hpp"
#include <geometrix/tensor/numeric_sequence.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/algebra/exterior_product.hpp>
#include <geometrix/utility/utilities.hpp>
#include <array>
#include <functional>
using namespace geometrix; using namespace gl; using vp::Case;
template <std::size_t N> struct A { double v[N]; double operator[](std::size_t i) const { return v[i]; } };
template <std::size_t N, typename F> static A<N> mk(F f) { A<N> r; for (std::size_t i = 0; i < N; ++i) r.v[i] = f(i); return r; }
template <std::size_t N> static A<N> operator+(A<N> a, A<N> b) { return mk<N>([&](std::size_t i) { return a[i] + b[i]; }); }
template <std::size_t N> static A<N> operator-(A<N> a, A<N> b) { return mk<N>([&](std::size_t i) { return a[i] - b[i]; }); }
template <std::size_t N> static A<N> operator-(A<N> a) { return mk<N>([&](std::size_t i) { return -a[i]; }); }
template <std::size_t N> static A<N> operator*(double k, A<N> b) { return mk<N>([&](std::size_t i) { return k * b[i]; }); }
template <std::size_t N> static double operator*(A<N> a, A<N> b) { double s = 0; for (std::size_t i = 0; i < N; ++i) s += a[i] * b[i]; return s; }
template <std::size_t N, typename G> static void same(Case& c, const G& g, const A<N>& w, const char* tag, const char* what) { for (std::size_t i = 0; i < N; ++i) VP_CHECK(c, g[i] == w[i], tag, what << " component " << i << " is " << g[i] << " expected " << w[i]); }
// <<= into a fresh object, direct initialisation and construct<> must agree
#define VEC(T, tag, expr, want) { auto w_ = want; T g_; g_ <<= expr; same(c, g_, w_, tag, #expr); T h_ = expr; same(c, h_, w_, tag, "initialised from " #expr); T k_ = construct<T>(expr); same(c, k_, w_, tag, "constructed from " #expr); T l_; l_ = expr; same(c, l_, w_, tag, "assigned from " #expr); }
#define SCA(tag, expr, want) { double w_ = want; double g_ = get(expr); VP_CHECK(c, g_ == w_, tag, #expr << " is " << g_ << " expected " << w_); double h_; h_ <<= expr; VP_CHECK(c, h_ == w_, tag, #expr << " assigns " << h_ << " expected " << w_); }
template <std::size_t N> static void vectors(Case& c) {
    typedef vector<double, N> VN; typedef point<double, N> PN; I m = c.pick<I>({2, 10, 500}); A<N> x, y, z; VN u, v, w; PN p, q, r;
    for (std::size_t i = 0; i < N; ++i) { u[i] = x.v[i] = (double)c.around(m); v[i] = y.v[i] = (double)c.around(m); w[i] = z.v[i] = (double)c.around(m); p[i] = u[i]; q[i] = v[i]; r[i] = w[i]; } double k = (double)c.around(8), j = std::ldexp(c.pick<double>({1.0, -1.0}), (int)c.range(-3, 3)); if (k != 0 && !(x * y == 0)) c.nontrivial();
    if (c.noting) { c.os << "dimension " << N << " u"; for (double d : x.v) c.os << " " << d; c.os << " v"; for (double d : y.v) c.os << " " << d; c.os << " w"; for (double d : z.v) c.os << " " << d; c.os << " k " << k << " j " << j; }
    VEC(VN, "sum", u + v, x + y) VEC(VN, "difference", u - v, x - y) VEC(VN, "sum-of-three", u + v + w, x + y + z) VEC(VN, "nested-difference", u - (v - w), x - y + z) VEC(VN, "left-difference", (u - v) - w, x - y - z) VEC(VN, "negation", -u, -x) VEC(VN, "negated-sum", -(u + v), -(x + y))
    VEC(VN, "scale-left", k * u, k * x) VEC(VN, "scale-right", u * k, k * x) VEC(VN, "divide", u / j, (1 / j) * x) VEC(VN, "combination", k * u + j * v, k * x + j * y) VEC(VN, "combination-difference", (u - v) * k - w / j, k * (x - y) - (1 / j) * z) VEC(VN, "scaled-sum", k * (u + v), k * (x + y)) VEC(VN, "divided-difference", (u - v) / j, (1 / j) * (x - y)) VEC(VN, "twice-scaled", j * (k * u), (j * k) * x)
    VEC(VN, "dot-times-vector", (u * v) * w, (x * y) * z) VEC(VN, "vector-times-dot", w * (u * v), (x * y) * z) VEC(VN, "projection-step", w - (u * v) * u, z - (x * y) * x)
    bool nz = true; for (double d : x.v) nz = nz && d != 0; if (nz) VEC(VN, "reciprocal", rec(u), mk<N>([&](std::size_t i) { return 1.0 / x[i]; }))
    SCA("dot", u * v, x * y) SCA("dot-of-sums", (u + v) * (u - w), (x + y) * (x - z)) SCA("dot-scaled", (k * u) * v, k * (x * y)) SCA("dot-over-scalar", (u * v) / j, (x * y) / j) SCA("sum-of-dots", u * v + u * w, x * y + x * z) SCA("difference-of-dots", u * v - v * w, x * y - y * z) SCA("dot-product-of-dots", (u * v) * (u * w), (x * y) * (x * z))
    VEC(VN, "point-difference", p - q, x - y) VEC(PN, "point-plus", p + v, x + y) VEC(PN, "point-minus", p - v, x - y) VEC(PN, "point-plus-sum", p + (v + w), x + (y + z)) VEC(PN, "point-plus-twice", p + v - w, x + y - z) VEC(PN, "interpolation", p + k * (q - p), x + k * (y - x)) VEC(PN, "interpolation-of-difference", p + (q - r) / j, x + (1 / j) * (y - z)) VEC(VN, "difference-of-moved-points", (p + v) - (q + w), x + y - y - z) VEC(VN, "difference-plus", (p - q) + w, x - y + z)
    SCA("dot-of-point-differences", (p - q) * (r - q), (x - y) * (z - y)) VEC(VN, "as-vector", as_vector(p) + v, x + y)
    // targets that appear in the expression
    { VN a = u; a <<= v + a; same(c, a, x + y, "alias", "a <<= v + a"); a = u; a = (a * v) * a - w; same(c, a, (x * y) * x - z, "alias", "a = (a * v) * a - w"); a = u; a <<= (a * v) * a - w; same(c, a, (x * y) * x - z, "alias", "a <<= (a * v) * a - w"); a = u; a = v - a; same(c, a, y - x, "alias", "a = v - a"); PN b = p; b <<= b + (q - b) / j; same(c, b, x + (1 / j) * (y - x), "alias", "b <<= b + (q - b) / j"); b = p; b = q + (b - r); same(c, b, y + x - z, "alias", "b = q + (b - r)"); }
    // expressions held in variables
    { auto e = u - v; auto f = e * k; VN g = f + w; same(c, g, k * (x - y) + z, "held", "f + w with f = (u - v) * k"); double d = dot_product(e, f); VP_CHECK(c, d == (x - y) * (k * (x - y)), "dot-of-expressions", "dot_product of expressions is " << d); VP_CHECK(c, get<0>(e) == x[0] - y[0] && get<N - 1>(e) == x[N - 1] - y[N - 1], "get", "get<> of an expression"); double ms = magnitude_sqrd(e); VP_CHECK(c, ms == (x - y) * (x - y), "magnitude-of-expression", "magnitude_sqrd(u - v) is " << ms); }
}
static void cross3(Case& c) {
    I m = c.pick<I>({2, 10, 300}); A<3> x, y, z; V3 u, v, w; vector_int_3d iu; for (int i = 0; i < 3; ++i) { I a = c.around(m); u[i] = x.v[i] = (double)a; iu[i] = (int)a; v[i] = y.v[i] = (double)c.around(m); w[i] = z.v[i] = (double)c.around(m); } double k = (double)c.around(6); if (c.noting) { c.os << "u"; for (double d : x.v) c.os << " " << d; c.os << " v"; for (double d : y.v) c.os << " " << d; c.os << " w"; for (double d : z.v) c.os << " " << d; c.os << " k " << k; }
    auto X = [](A<3> a, A<3> b) { return A<3>{{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }; if (X(x, y) * z != 0) c.nontrivial();
    VEC(V3, "cross", u ^ v, X(x, y)) VEC(V3, "cross-of-sums", (u + v) ^ (v - w), X(x + y, y - z)) VEC(V3, "cross-sum", (u ^ v) + w, X(x, y) + z) VEC(V3, "cross-scaled", (k * u) ^ v, k * X(x, y)) VEC(V3, "double-cross", (u ^ v) ^ w, X(X(x, y), z)) VEC(V3, "nested-cross", u ^ (v ^ w), X(x, X(y, z))) VEC(V3, "cross-over-dot", ((u ^ v) * w) * u, (X(x, y) * z) * x) SCA("triple", (u ^ v) * w, X(x, y) * z) SCA("triple-left", w * (u ^ v), X(x, y) * z)
    VEC(V3, "int-mixed-sum", iu + v, x + y) VEC(V3, "int-mixed-difference", v - iu, y - x) VEC(V3, "int-mixed-cross", iu ^ v, X(x, y)) SCA("int-mixed-dot", iu * v, x * y)
    { V3 a = u; a <<= a ^ v; same(c, a, X(x, y), "alias-cross", "a <<= a ^ v"); a = v; a = u ^ a; same(c, a, X(x, y), "alias-cross", "a = u ^ a"); }
    { matrix<double, 2, 2> a; matrix<double, 2, 3> b; for (int i = 0; i < 2; ++i) { for (int j = 0; j < 2; ++j) a[i][j] = (double)c.around(m); for (int j = 0; j < 3; ++j) b[i][j] = (double)c.around(m); } matrix<double, 4, 6> t; t <<= a & b; for (int i = 0; i < 4; ++i) for (int j = 0; j < 6; ++j) VP_CHECK(c, t[i][j] == a[i / 2][j / 3] * b[i % 2][j % 3], "kronecker", "element " << i << "," << j << " is " << t[i][j] << " expected " << a[i / 2][j / 3] * b[i % 2][j % 3]); }
}
VP_ASPECT(vectors, 500000, 20000000, "three integer vectors/points of dimension 2 to 4 and two scalars through some forty nested expressions; non-trivial: non-zero scalar and dot product") { switch (c.draw(3)) { case 0: vectors<2>(c); break; case 1: vectors<3>(c); break; default: vectors<4>(c); } }
VP_ASPECT(cross, 500000, 20000000, "three integer 3D vectors through cross, triple, mixed int/double and tensor products; non-trivial: independent vectors") { cross3(c); }
template <std::size_t R, std::size_t C> static void mats(Case& c) {
    typedef matrix<double, R, C> MM; I m = c.pick<I>({2, 10, 300}); MM a, b, d; for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) { a[i][j] = (double)c.around(m); b[i][j] = (double)c.around(m); d[i][j] = (double)c.around(m); } double k = (double)c.around(9), h = std::ldexp(c.pick<double>({1.0, -1.0}), (int)c.range(-3, 3)); if (k) c.nontrivial();
    if (c.noting) { c.os << R << "x" << C; for (auto* q : {&a, &b, &d}) { c.os << " ["; for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) c.os << (*q)[i][j] << " "; c.os << "]"; } c.os << " k " << k << " h " << h; }
    auto eq = [&](const MM& g, std::function<double(std::size_t, std::size_t)> f, const char* tag) { for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) VP_CHECK(c, g[i][j] == f(i, j), tag, "element " << i << "," << j << " is " << g[i][j] << " expected " << f(i, j)); };
#define MAT(tag, expr, want) { MM g_; g_ <<= expr; eq(g_, [&](std::size_t i, std::size_t j) { return want; }, tag); MM h_ = construct<MM>(expr); eq(h_, [&](std::size_t i, std::size_t j) { return want; }, tag); }
    MAT("matrix-sum", a + b - d, a[i][j] + b[i][j] - d[i][j]) MAT("matrix-nested-difference", a - (b - d), a[i][j] - (b[i][j] - d[i][j])) MAT("matrix-combination", k * a + b * h, k * a[i][j] + h * b[i][j]) MAT("matrix-divide", (a - b) / h, (a[i][j] - b[i][j]) / h) MAT("matrix-negate", -(a + d), -(a[i][j] + d[i][j])) { MM g = a; g <<= b - g; eq(g, [&](std::size_t i, std::size_t j) { return b[i][j] - a[i][j]; }, "matrix-alias"); } { matrix<double, R, R> p; matrix<double, C, R> t; t <<= trans(a); auto ta = trans(b); p <<= (a + d) * ta; for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < R; ++j) { double w = 0; for (std::size_t x = 0; x < C; ++x) w += (a[i][x] + d[i][x]) * b[j][x]; VP_CHECK(c, p[i][j] == w, "matrix-product-of-expressions", "element " << i << "," << j << " is " << p[i][j] << " expected " << w); } }
}
VP_ASPECT(matrices, 400000, 15000000, "three integer matrices of shapes 2x2 to 4x4 and two scalars through nested expressions; non-trivial: non-zero scalar") { switch (c.draw(4)) { case 0: mats<2, 2>(c); break; case 1: mats<3, 3>(c); break; case 2: mats<2, 4>(c); break; default: mats<4, 4>(c); } }
// products of matrices with vectors, points and matrices, nested in every order; the oracle multiplies plain arrays
template <std::size_t N> struct B { double v[N][N]; };
template <std::size_t N, typename F> static B<N> mb(F f) { B<N> r; for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) r.v[i][j] = f(i, j); return r; }
template <std::size_t N> static B<N> operator+(B<N> a, B<N> b) { return mb<N>([&](std::size_t i, std::size_t j) { return a.v[i][j] + b.v[i][j]; }); }
template <std::size_t N> static B<N> operator-(B<N> a, B<N> b) { return mb<N>([&](std::size_t i, std::size_t j) { return a.v[i][j] - b.v[i][j]; }); }
template <std::size_t N> static B<N> operator*(double k, B<N> a) { return mb<N>([&](std::size_t i, std::size_t j) { return k * a.v[i][j]; }); }
template <std::size_t N> static B<N> operator*(B<N> a, B<N> b) { return mb<N>([&](std::size_t i, std::size_t j) { double s = 0; for (std::size_t k = 0; k < N; ++k) s += a.v[i][k] * b.v[k][j]; return s; }); }
template <std::size_t N> static A<N> operator*(B<N> a, A<N> x) { return mk<N>([&](std::size_t i) { double s = 0; for (std::size_t k = 0; k < N; ++k) s += a.v[i][k] * x[k]; return s; }); }
template <std::size_t N> static B<N> tr(B<N> a) { return mb<N>([&](std::size_t i, std::size_t j) { return a.v[j][i]; }); }
template <std::size_t N, typename G> static void sameM(Case& c, const G& g, const B<N>& w, const char* tag, const char* what) { for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) VP_CHECK(c, g[i][j] == w.v[i][j], tag, what << " element " << i << "," << j << " is " << g[i][j] << " expected " << w.v[i][j]); }
#define MX(tag, expr, want) { auto w_ = want; MM g_; g_ <<= expr; sameM<N>(c, g_, w_, tag, #expr); MM h_ = construct<MM>(expr); sameM<N>(c, h_, w_, tag, "constructed from " #expr); }
template <std::size_t N> static void products(Case& c) {
    typedef matrix<double, N, N> MM; typedef vector<double, N> VN; typedef point<double, N> PN; I m = c.pick<I>({2, 9, 60}); MM a, b, d; B<N> x, y, z; VN u, v; PN p, q; A<N> s, t;
    for (std::size_t i = 0; i < N; ++i) { for (std::size_t j = 0; j < N; ++j) { a[i][j] = x.v[i][j] = (double)c.around(m); b[i][j] = y.v[i][j] = (double)c.around(m); d[i][j] = z.v[i][j] = (double)c.around(m); } u[i] = p[i] = s.v[i] = (double)c.around(m); v[i] = q[i] = t.v[i] = (double)c.around(m); } double k = (double)c.around(6), h = std::ldexp(c.pick<double>({1.0, -1.0}), (int)c.range(-3, 3));
    bool asym = false, comm = true; { B<N> l = x * y, r = y * x; for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) { asym |= x.v[i][j] != x.v[j][i]; comm &= l.v[i][j] == r.v[i][j]; } } if (asym && !comm) c.nontrivial();
    if (c.noting) { c.os << N << "x" << N; for (auto* e : {&x, &y, &z}) { c.os << " ["; for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) c.os << e->v[i][j] << " "; c.os << "]"; } c.os << " u"; for (double e : s.v) c.os << " " << e; c.os << " v"; for (double e : t.v) c.os << " " << e; c.os << " k " << k << " h " << h; }
    VEC(VN, "matrix-vector", a * u, x * s) VEC(VN, "matrix-matrix-vector", a * (b * u), x * (y * s)) VEC(VN, "product-times-vector", (a * b) * u, (x * y) * s) VEC(VN, "matrix-scaled-vector", a * (k * u), x * (k * s)) VEC(VN, "transpose-vector", trans(a) * u, tr(x) * s) VEC(VN, "matrix-vector-plus", a * u + v, x * s + t) VEC(VN, "matrix-vector-minus", a * u - b * v, x * s - y * t) VEC(VN, "negated-matrix-vector", -(a * u), -(x * s)) VEC(VN, "matrix-sum-vector", (a + b) * u, (x + y) * s) VEC(VN, "matrix-of-sum", a * (u + v), x * (s + t)) VEC(VN, "matrix-of-point-difference", a * (p - q), x * (s - t)) VEC(PN, "transformed-step", p + a * (q - p), s + x * (t - s))
    SCA("matrix-vector-dot", (a * u) * v, (x * s) * t) SCA("dot-of-images", (a * u) * (b * v), (x * s) * (y * t))
    MX("matrix-product", a * b, x * y) MX("product-difference", a * b - d, x * y - z) MX("scaled-product", k * (a * b), k * (x * y)) MX("product-divided", (a * b) / h, (1 / h) * (x * y)) MX("product-of-three", a * b * d, (x * y) * z) MX("product-of-three-right", a * (b * d), x * (y * z)) MX("transpose-of-product", trans(a * b), tr(y) * tr(x)) MX("product-of-sum", a * (b + d), x * (y + z)) MX("transpose-twice", trans(trans(a)), x) MX("transpose-of-sum", trans(a + b), tr(x + y)) MX("transpose-product", trans(a) * b, tr(x) * y)
    { MM e = a; e <<= e * b; sameM<N>(c, e, x * y, "alias-product", "e <<= e * b"); e = a; e <<= b * e; sameM<N>(c, e, y * x, "alias-product", "e <<= b * e"); e = a; e <<= trans(e); sameM<N>(c, e, tr(x), "alias-transpose", "e <<= trans(e)"); e = a; e <<= e * e - trans(e); sameM<N>(c, e, x * x - tr(x), "alias-square", "e <<= e * e - trans(e)"); VN f = u; f <<= a * f; same(c, f, x * s, "alias-image", "f <<= a * f"); f = u; f <<= f + a * f; same(c, f, s + x * s, "alias-image", "f <<= f + a * f"); }
    { auto ab = a * b; VN g = ab * u; same(c, g, (x * y) * s, "held-product", "held a * b times u"); auto au = a * u; VN l = b * au; same(c, l, y * (x * s), "held-image", "b times held a * u"); }
}
VP_ASPECT(products, 150000, 5000000, "three integer square matrices of dimension 2 to 4, two vectors and two scalars through nested products, transposes, images and aliased targets; non-trivial: an asymmetric and a non-commuting pair") { switch (c.draw(3)) { case 0: products<2>(c); break; case 1: products<3>(c); break; default: products<4>(c); } }
// determinants, inverses, magnitudes and norms inside expressions: tolerances relative to the operands
template <std::size_t N> static double dete(const B<N>& a) { if (N == 1) return a.v[0][0]; if (N == 2) return a.v[0][0] * a.v[1][1] - a.v[0][1] * a.v[1][0]; auto A3 = [](const double (&q)[3][3]) { return q[0][0] * (q[1][1] * q[2][2] - q[1][2] * q[2][1]) - q[0][1] * (q[1][0] * q[2][2] - q[1][2] * q[2][0]) + q[0][2] * (q[1][0] * q[2][1] - q[1][1] * q[2][0]); }; double s = 0; if (N == 3) { double q[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) q[i][j] = a.v[i][j]; return A3(q); } for (std::size_t k = 0; k < N; ++k) { double q[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0, l = 0; l < (int)N; ++l) if (l != (int)k) q[i][j++] = a.v[i + 1][l]; s += (k % 2 ? -1 : 1) * a.v[0][k] * A3(q); } return s; }
template <std::size_t N> static void derived(Case& c) {
    typedef matrix<double, N, N> MM; typedef vector<double, N> VN; I m = c.pick<I>({2, 9}); MM a, b; B<N> x, y; VN u, v; A<N> s, t; bool big = c.chance(1, 2); // half of them diagonally dominant: well conditioned
    for (std::size_t i = 0; i < N; ++i) { for (std::size_t j = 0; j < N; ++j) { x.v[i][j] = (double)c.around(m) + (big && i == j ? 4.0 * (double)m * (c.chance(1, 2) ? 1 : -1) : 0); y.v[i][j] = (double)c.around(m) + (i == j ? 4.0 * (double)m : 0); a[i][j] = x.v[i][j]; b[i][j] = y.v[i][j]; } u[i] = s.v[i] = (double)c.around(m); v[i] = t.v[i] = (double)c.around(m); }
    if (c.noting) { c.os << N << "x" << N; for (auto* e : {&x, &y}) { c.os << " ["; for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) c.os << e->v[i][j] << " "; c.os << "]"; } c.os << " u"; for (double e : s.v) c.os << " " << e; c.os << " v"; for (double e : t.v) c.os << " " << e; }
    double da = dete<N>(x), db = dete<N>(y); auto num = [&](double g, double w, double scale, const char* tag, const char* what) { VP_CHECK(c, std::abs(g - w) <= 1e-9 * (1 + scale), tag, what << " is " << g << " expected " << w); };
    double bound = std::pow(5.0 * (double)m * N, (double)N);
#define NUM(tag, expr, want, scale) { double g_ = get(expr); num(g_, want, scale, tag, #expr); }
    NUM("determinant", det(a), da, bound) NUM("determinant-of-transpose", det(trans(a)), da, bound) NUM("determinant-of-product", det(a * b), da * db, bound * bound) NUM("determinant-ratio", det(a) / det(b), da / db, bound / std::abs(db)) { VN g; g <<= det(b) * u; for (std::size_t i = 0; i < N; ++i) num(g[i], db * s[i], bound * (double)m, "determinant-times-vector", "det(b) * u"); }
    double sd = s * t; NUM("magnitude", magnitude(u - v), std::sqrt((s - t) * (s - t)), (double)m) NUM("magnitude-of-image", magnitude(a * u), std::sqrt((x * s) * (x * s)), bound)
    double ms = std::sqrt(s * s), mt = std::sqrt(t * t); if (ms > 0) { VN g; g <<= v / magnitude(u); for (std::size_t i = 0; i < N; ++i) num(g[i], t[i] / ms, (double)m, "over-magnitude", "v / magnitude(u)"); g <<= (u * v) / magnitude(u) * u; for (std::size_t i = 0; i < N; ++i) num(g[i], sd / ms * s[i], (double)(m * m * m), "projection-length", "(u * v) / magnitude(u) * u"); g <<= normalize(u); for (std::size_t i = 0; i < N; ++i) num(g[i], s[i] / ms, 1, "unit", "normalize(u)"); NUM("magnitude-times-unit", magnitude(u) * (normalize(u) * v), sd, (double)(m * m)) if (mt > 0) NUM("cosine", normalize(u) * normalize(v), sd / (ms * mt), 1) }
    if ((s + t) * (s + t) > 0) { VN g; g <<= normalize(u + v); double l = std::sqrt((s + t) * (s + t)); for (std::size_t i = 0; i < N; ++i) num(g[i], (s[i] + t[i]) / l, 1, "unit-of-sum", "normalize(u + v)"); }
    { A<N> w = x * s; double l = std::sqrt(w * w); if (l > 0) { VN g; g <<= normalize(a * u); for (std::size_t i = 0; i < N; ++i) num(g[i], w[i] / l, 1, "unit-of-image", "normalize(a * u)"); } }
    // b is diagonally dominant, hence safely invertible: the residual of each inverse is checked
    auto ident = [&](const MM& g, const B<N>& w, double scale, const char* tag, const char* what) { for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) num(g[i][j], w.v[i][j], scale, tag, what); };
    B<N> one = mb<N>([](std::size_t i, std::size_t j) { return i == j ? 1.0 : 0.0; }); MM g; g <<= inv(b) * b; ident(g, one, 1, "inverse-times", "inv(b) * b"); g <<= b * inv(b); ident(g, one, 1, "times-inverse", "b * inv(b)"); g <<= inv(inv(b)); ident(g, y, (double)m, "inverse-twice", "inv(inv(b))"); g <<= b * (inv(b) * a); ident(g, x, (double)m, "inverse-of-product-step", "b * (inv(b) * a)"); g <<= trans(inv(b)) * trans(b); ident(g, one, 1, "transpose-of-inverse", "trans(inv(b)) * trans(b)"); g <<= inv(trans(b)) * trans(b); ident(g, one, 1, "inverse-of-transpose", "inv(trans(b)) * trans(b)"); { MM ib; ib <<= inv(b); g <<= det(b) * inv(b) - det(b) * ib; ident(g, mb<N>([](std::size_t, std::size_t) { return 0.0; }), bound, "adjugate", "det(b) * inv(b)"); VN r; r <<= inv(b) * (b * u); for (std::size_t i = 0; i < N; ++i) num(r[i], s[i], (double)m, "solved", "inv(b) * (b * u)"); g <<= inv(b * b) * b - ib; ident(g, mb<N>([](std::size_t, std::size_t) { return 0.0; }), 1, "inverse-of-product", "inv(b * b) * b"); }
    if (da != 0 && ms > 0 && mt > 0) c.nontrivial();
}
VP_ASPECT(derived, 150000, 5000000, "two integer square matrices (one always invertible) and two vectors through expressions with determinants, inverses, transposes, magnitudes and units; non-trivial: non-singular matrix, non-zero vectors") { switch (c.draw(3)) { case 0: derived<2>(c); break; case 1: derived<3>(c); break; default: derived<4>(c); } }
