// P29: matrix algebra against exact integer arithmetic.
#include "gl.hpp"
#include <geometrix/tensor/numeric_sequence.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/tensor/identity_matrix.hpp>
#include <geometrix/tensor/matrix_minor_adaptor.hpp>
#include <geometrix/tensor/vector_matrix_adaptors.hpp>
#include <geometrix/tensor/homogeneous_adaptor.hpp>
#include <geometrix/tensor/composite_matrix.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/algebra/lup_decomposition.hpp>
#include <geometrix/arithmetic/matrix/trace.hpp>
#include <array>
#include <stdexcept>
using namespace geometrix; using namespace gl; using vp::Case;
typedef __int128 W;
template <std::size_t R, std::size_t C> struct M { I a[R][C]; };
template <std::size_t R, std::size_t C> static M<R, C> gen(Case& c, I m) { M<R, C> r; for (auto& w : r.a) for (I& x : w) { x = c.around(m); if (c.chance(1, 4)) x = 0; } if (R > 1 && c.chance(1, 8)) { std::size_t i = c.draw(R), j = c.draw(R); if (i != j) for (std::size_t k = 0; k < C; ++k) r.a[i][k] = (i < j ? 1 : -1) * r.a[j][k]; } return r; }
template <std::size_t R, std::size_t C> static matrix<double, R, C> lib(const M<R, C>& m, double s = 1) { matrix<double, R, C> r; for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) r[i][j] = (double)m.a[i][j] * s; return r; }
template <std::size_t R, std::size_t C> static std::ostream& operator<<(std::ostream& os, const M<R, C>& m) { os << "["; for (std::size_t i = 0; i < R; ++i) { os << (i ? " ; " : ""); for (std::size_t j = 0; j < C; ++j) os << (j ? " " : "") << m.a[i][j]; } return os << "]"; }
static W bareiss(std::vector<std::vector<W>> a) { std::size_t n = a.size(); W d = 1; int s = 1; for (std::size_t k = 0; k < n; ++k) { std::size_t p = k; while (p < n && a[p][k] == 0) ++p; if (p == n) return 0; if (p != k) { std::swap(a[p], a[k]); s = -s; } for (std::size_t i = k + 1; i < n; ++i) for (std::size_t j = k + 1; j < n; ++j) a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) / d; d = a[k][k]; } return s * d; }
template <std::size_t N> static std::vector<std::vector<W>> wide(const M<N, N>& m, int er = -1, int ec = -1) { std::vector<std::vector<W>> r; for (int i = 0; i < (int)N; ++i) { if (i == er) continue; r.emplace_back(); for (int j = 0; j < (int)N; ++j) if (j != ec) r.back().push_back(m.a[i][j]); } return r; }
template <std::size_t R, std::size_t C, typename F> static void eq(Case& c, const matrix<double, R, C>& g, F f, const char* tag, double rel = 0) { for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) { double w = f(i, j); VP_CHECK(c, rel == 0 ? g[i][j] == w : std::fabs(g[i][j] - w) <= rel, tag, "element " << i << "," << j << " is " << g[i][j] << " expected " << w); } }

template <std::size_t R, std::size_t K, int Kind> struct VecCheck { template <typename A, typename V, typename F> static void go(Case&, const A&, const V&, F) {} };
template <std::size_t R, std::size_t K> struct VecCheck<R, K, 0> { template <typename A, typename V, typename F> static void go(Case& c, const A& a, const V& v, F f) { vector<double, R> w; w <<= a * v; for (std::size_t i = 0; i < R; ++i) VP_CHECK(c, w[i] == f(i), "matrix-vector", "component " << i << " is " << w[i] << " expected " << f(i)); } };
template <std::size_t R, std::size_t K> struct VecCheck<R, K, 1> { template <typename A, typename V, typename F> static void go(Case& c, const A& a, const V& v, F f) { auto e = a * v; double x = get<0>(e), y = get<R - 1>(e); VP_CHECK(c, x == f(0) && y == f(R - 1), "matrix-vector", "components 0 and " << R - 1 << " are " << x << " " << y << " expected " << f(0) << " " << f(R - 1)); } };
template <std::size_t R, std::size_t K, std::size_t C> static void shapes(Case& c) {
    I m = c.pick<I>({1, 5, 100, 10000}); auto a = gen<R, K>(c, m); auto b = gen<K, C>(c, m); auto d = gen<R, K>(c, m); double s = c.pick<double>({1., 0.5, 4.}); I k = c.around(50); VP_NOTE(c, "A " << a << " B " << b << " D " << d << " scale " << s << " k " << k);
    c.nontrivial(); auto A = lib(a, s), D = lib(d, s); auto B = lib(b, s); double s2 = s * s;
    auto ab = [&](std::size_t i, std::size_t j) { I x = 0; for (std::size_t t = 0; t < K; ++t) x += a.a[i][t] * b.a[t][j]; return (double)x * s2; };
    matrix<double, R, C> p; p <<= A * B; eq(c, p, ab, "product"); matrix<double, C, R> pt; auto e = A * B; pt <<= trans(e); eq(c, pt, [&](std::size_t i, std::size_t j) { return ab(j, i); }, "transposed-product");
    matrix<double, C, R> q; auto tb = trans(B); auto ta = trans(A); q <<= tb * ta; eq(c, q, [&](std::size_t i, std::size_t j) { return ab(j, i); }, "product-of-transposes"); matrix<double, K, R> t; t <<= trans(A); eq(c, t, [&](std::size_t i, std::size_t j) { return a.a[j][i] * s; }, "transpose");
    matrix<double, R, K> x; x <<= A + D; eq(c, x, [&](std::size_t i, std::size_t j) { return (double)(a.a[i][j] + d.a[i][j]) * s; }, "sum"); x <<= A - D; eq(c, x, [&](std::size_t i, std::size_t j) { return (double)(a.a[i][j] - d.a[i][j]) * s; }, "difference"); x <<= -A; eq(c, x, [&](std::size_t i, std::size_t j) { return -(double)a.a[i][j] * s; }, "negation");
    x <<= (double)k * A; eq(c, x, [&](std::size_t i, std::size_t j) { return (double)(a.a[i][j] * k) * s; }, "scalar-left"); x <<= A * (double)k; eq(c, x, [&](std::size_t i, std::size_t j) { return (double)(a.a[i][j] * k) * s; }, "scalar-right");
    p <<= (A - D) * B; eq(c, p, [&](std::size_t i, std::size_t j) { I x = 0; for (std::size_t t = 0; t < K; ++t) x += (a.a[i][t] - d.a[i][t]) * b.a[t][j]; return (double)x * s2; }, "distributed-product");
    vector<double, K> v; std::array<I, K> iv; for (std::size_t i = 0; i < K; ++i) { iv[i] = c.around(m); v[i] = (double)iv[i] * s; } VecCheck<R, K, (R == K ? 0 : R < K ? 1 : 2)>::go(c, A, v, [&](std::size_t i) { I x = 0; for (std::size_t j = 0; j < K; ++j) x += a.a[i][j] * iv[j]; return (double)x * s2; });
    matrix<double, 1, C> vb; vb <<= v * B; eq(c, vb, [&](std::size_t, std::size_t j) { I x = 0; for (std::size_t i = 0; i < K; ++i) x += iv[i] * b.a[i][j]; return (double)x * s2; }, "vector-matrix");
    row<matrix<double, R, K>, R - 1> r(A); column<matrix<double, K, C>, C - 1> l(B); vector<double, K> rv = construct<vector<double, K>>(r), cv = construct<vector<double, K>>(l); for (std::size_t i = 0; i < K; ++i) VP_CHECK(c, rv[i] == A[R - 1][i] && cv[i] == B[i][C - 1], "row-column", "element " << i << " of the last row " << rv[i] << ", of the last column " << cv[i]); double dp = dot_product(r, l); VP_CHECK(c, dp == ab(R - 1, C - 1), "row-dot-column", "got " << dp << " expected " << ab(R - 1, C - 1));
}
VP_ASPECT(shapes, 800000, 8000000, "integer matrices of shapes 1x1 to 4x5 times a power of two, a scalar and a vector; every case is non-trivial") {
    switch (c.draw(7)) { case 0: shapes<2, 3, 4>(c); break; case 1: shapes<3, 3, 3>(c); break; case 2: shapes<4, 2, 5>(c); break; case 3: shapes<2, 2, 2>(c); break; case 4: shapes<4, 4, 4>(c); break; case 5: shapes<3, 5, 2>(c); break; default: shapes<3, 2, 3>(c); }
}
template <typename T> static double val(const T& e) { return get(e); }
template <std::size_t N, bool Inv> struct InvCheck { static void go(Case& c, const M<N, N>& a, const matrix<double, N, N>& A, W d, double s) {
    bool threw = false; matrix<double, N, N> x; try { x <<= inv(A); } catch (const std::logic_error&) { threw = true; } VP_CHECK(c, threw == (d == 0), "inverse-singular", "threw " << threw << " determinant " << (double)d); if (threw) return;
    eq(c, x, [&](std::size_t i, std::size_t j) { return ((i + j) % 2 ? -1.0 : 1.0) * (double)bareiss(wide(a, (int)j, (int)i)) / (double)d / s; }, "inverse", 1e-9 / s); } };
template <std::size_t N> struct InvCheck<N, false> { static void go(Case&, const M<N, N>&, const matrix<double, N, N>&, W, double) {} };
template <std::size_t N> static void square(Case& c) {
    I m = N <= 3 ? c.pick<I>({1, 3, 30, 300}) : N == 4 ? c.pick<I>({1, 3, 20}) : c.pick<I>({1, 2, 4}); auto a = gen<N, N>(c, m); double s = c.pick<double>({1., 0.5, 4.}); VP_NOTE(c, "A " << a << " scale " << s); auto A = lib(a, s); W d = bareiss(wide(a)); if (d) c.nontrivial(); double sn = std::pow(s, (double)N);
    double g = val(det(A)); VP_CHECK(c, g == (double)d * sn, "determinant", "det = " << g << " expected " << (double)d * sn); I t = 0; for (std::size_t i = 0; i < N; ++i) t += a.a[i][i]; VP_CHECK(c, trace(A) == (double)t * s, "trace", "trace = " << trace(A) << " expected " << (double)t * s);
    matrix<double, N, N> x = A, id; identity_matrix<double, N, N> E; for (int i = 0; i < (int)N; ++i) for (int j = 0; j < (int)N; ++j) { id[i][j] = E[i][j]; VP_CHECK(c, E[i][j] == (i == j) && E.get(i, j) == (i == j), "identity", "element " << i << "," << j); } x <<= A * id; eq(c, x, [&](std::size_t i, std::size_t j) { return a.a[i][j] * s; }, "times-identity");
    InvCheck<N, (N <= 4)>::go(c, a, A, d, s);
}
template <std::size_t N> static void minors(Case& c) {
    auto a = gen<N, N>(c, 50); VP_NOTE(c, "A " << a); auto A = lib(a); c.nontrivial();
    { auto m = as_matrix_minor<0, N - 1>(A); matrix<double, N - 1, N - 1> x = construct<matrix<double, N - 1, N - 1>>(m); eq(c, x, [&](std::size_t i, std::size_t j) { return (double)a.a[i + 1][j]; }, "minor"); double d = val(det(m)); W w = bareiss(wide(a, 0, N - 1)); VP_CHECK(c, d == (double)w, "minor-determinant", d << " expected " << (double)w); }
    { auto m = as_matrix_minor<N - 1, 1>(A); matrix<double, N - 1, N - 1> x = construct<matrix<double, N - 1, N - 1>>(m); eq(c, x, [&](std::size_t i, std::size_t j) { return (double)a.a[i][j + (j >= 1)]; }, "minor"); double d = val(det(m)); W w = bareiss(wide(a, N - 1, 1)); VP_CHECK(c, d == (double)w, "minor-determinant", d << " expected " << (double)w); }
    { auto m = as_matrix_minor<1, 0>(A); matrix<double, N - 1, N - 1> x = construct<matrix<double, N - 1, N - 1>>(m); eq(c, x, [&](std::size_t i, std::size_t j) { return (double)a.a[i + (i >= 1)][j + 1]; }, "minor"); }
}
VP_ASPECT(square, 800000, 8000000, "integer matrices 2x2 to 5x5, often singular; non-trivial: not singular") { switch (c.draw(4)) { case 0: square<2>(c); break; case 1: square<3>(c); break; case 2: square<4>(c); break; default: square<5>(c); } }
VP_ASPECT(minors, 400000, 4000000, "minors of 3x3 and 4x4 integer matrices; every case is non-trivial") { if (c.chance(1, 2)) minors<3>(c); else minors<4>(c); }
template <std::size_t N> static void lup(Case& c) {
    I m = c.pick<I>({1, 3, 9}); auto a = gen<N, N>(c, m); VP_NOTE(c, "A " << a); matrix<double, N, N> lu = lib(a); W d = bareiss(wide(a)); boost::array<std::size_t, N> pi; bool threw = false; try { lup_decomposition(lu, pi); } catch (const std::logic_error&) { threw = true; }
    if (d == 0) { c.label_if(threw, "singular refused"); return; } VP_CHECK(c, !threw, "lup-refused", "a regular matrix was refused"); c.nontrivial();
    std::array<bool, N> seen{}; for (std::size_t i = 0; i < N; ++i) { VP_CHECK(c, pi[i] < N && !seen[pi[i]], "lup-permutation", "not a permutation at " << i); seen[pi[i]] = true; }
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) { double x = 0; for (std::size_t k = 0; k <= std::min(i, j); ++k) x += (k == i ? 1.0 : lu[i][k]) * lu[k][j]; VP_CHECK(c, std::fabs(x - (double)a.a[pi[i]][j]) < 1e-9, "lup-product", "(LU)" << i << "," << j << " = " << x << " expected " << a.a[pi[i]][j]); }
    for (std::size_t i = 0; i < N; ++i) for (std::size_t k = 0; k < i; ++k) VP_CHECK(c, std::fabs(lu[i][k]) <= 1 + 1e-12, "lup-pivoting", "multiplier " << lu[i][k]);
    boost::array<double, N> b; std::array<I, N> x0; for (std::size_t i = 0; i < N; ++i) x0[i] = c.around(20); for (std::size_t i = 0; i < N; ++i) { I y = 0; for (std::size_t j = 0; j < N; ++j) y += a.a[i][j] * x0[j]; b[i] = (double)y; }
    auto x = lup_solve(lu, pi, b); for (std::size_t i = 0; i < N; ++i) VP_CHECK(c, std::fabs(x[i] - (double)x0[i]) < 1e-6, "lup-solve", "x" << i << " = " << x[i] << " expected " << x0[i]);
}
VP_ASPECT(lup, 1200000, 12000000, "small integer systems of 2 to 6 unknowns with an integer solution; non-trivial: not singular") { switch (c.draw(5)) { case 0: lup<2>(c); break; case 1: lup<3>(c); break; case 2: lup<4>(c); break; case 3: lup<5>(c); break; default: lup<6>(c); } }
VP_ASPECT(adaptors, 1200000, 12000000, "vectors and matrices seen as rows, columns, composites and homogeneous coordinates; every case is non-trivial") {
    auto a = gen<3, 3>(c, 30); auto A = lib(a); I t[3], w[4]; for (I& x : t) x = c.around(30); for (I& x : w) x = c.around(30); VP_NOTE(c, "A " << a << " t " << t[0] << "," << t[1] << "," << t[2] << " w " << w[0] << "," << w[1] << "," << w[2] << "," << w[3]); c.nontrivial();
    V3 tv((double)t[0], (double)t[1], (double)t[2]); vector<double, 4> wv; for (int i = 0; i < 4; ++i) wv[i] = (double)w[i]; auto cv = as_column_vector(tv); auto rv = as_row_vector(wv);
    auto el = [&](std::size_t i, std::size_t j) -> double { return i == 3 ? (double)w[j] : j == 3 ? (double)t[i] : (double)a.a[i][j]; }; auto cm = as_matrix<4, 4>(A, cv, rv); matrix<double, 4, 4> m = construct<matrix<double, 4, 4>>(cm); eq(c, m, el, "composite"); M<4, 4> im; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) im.a[i][j] = (I)el(i, j); double d = val(det(cm)); W wd = bareiss(wide(im)); VP_CHECK(c, d == (double)wd, "composite-determinant", d << " expected " << (double)wd);
    P3 p((double)t[0], (double)t[1], (double)t[2]); auto hp = as_positional_homogeneous<double>(p); auto hv = as_vectoral_homogeneous<double>(tv); auto eq_ = m * hp; auto er_ = m * hv; double q[4] = {get<0>(eq_), get<1>(eq_), get<2>(eq_), get<3>(eq_)}, r[4] = {get<0>(er_), get<1>(er_), get<2>(er_), get<3>(er_)}; for (int i = 0; i < 4; ++i) { I x = (I)(el(i, 0) * t[0] + el(i, 1) * t[1] + el(i, 2) * t[2]); VP_CHECK(c, q[i] == (double)(x + (I)el(i, 3)), "homogeneous-point", "component " << i << " is " << q[i] << " expected " << x + (I)el(i, 3)); VP_CHECK(c, r[i] == (double)x, "homogeneous-vector", "component " << i << " is " << r[i] << " expected " << x); }
}
