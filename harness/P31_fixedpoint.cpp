// P31: fixed point numbers behave as scaled integers.
#include "vp.hpp"
#include <geometrix/numeric/fixed_point.hpp>
#include <geometrix/numeric/boost_units_quantity_fixed_point.hpp>
#include <boost/units/systems/si.hpp>
#include <sstream>
#include <cmath>
using namespace geometrix;
using vp::Case;
typedef __int128 W;
typedef long long L;

enum Rnd { EVEN, ZERO, UP, DOWN };
static L floordiv(W n, W d) { W q = n / d; if ((n % d != 0) && ((n < 0) != (d < 0))) --q; return (L)q; }
// n/d rounded to an integer by the policy, d > 0
static L rnd(W n, W d, Rnd r) {
    L f = floordiv(n, d); W rem = n - (W)f * d;
    if (rem == 0) return f;
    switch (r) {
    case DOWN: return f;
    case UP: return f + 1;
    case ZERO: return n >= 0 ? f : f + 1;
    default:
        if (2 * rem < d) return f;
        if (2 * rem > d) return f + 1;
        return (f % 2 == 0) ? f : f + 1;
    }
}
template <class F, class S, class R> using FP = fixed_point<fixed_point_traits<F, S, R>>;
template <class F> L lim();
template <> L lim<int>() { return 2147483647LL; }
template <> L lim<short>() { return 32767; }
template <> L lim<long>() { return 4000000000000LL; }

template <class T> struct Info { typedef T type; L S; Rnd r; bool binary; typename T::scale_policy pol; const char* name; };

// a value k/2^j whose product with the scale is exact in double arithmetic
static void gen_dyadic(Case& c, L S, L max, W& n, int& j, double& d) {
    j = (int)c.range(0, 6);
    L m = (max / S) ; if (m > 2000000) m = 2000000;
    L whole = c.chance(1, 2) ? c.range(-3, 3) : c.range(-m + 1, m - 1);
    if (whole > m - 1) whole = m - 1; if (whole < -m + 1) whole = -m + 1;
    n = (W)whole * (1LL << j) + c.range(0, (1LL << j) - 1);
    if (m <= 1) n = c.range(-(1LL << j) + 1, (1LL << j) - 1);
    if (c.chance(1, 4)) { // a few last places, or a fraction of one
        j = (int)c.range(6, 40); L most = std::min<L>(3 * ((1LL << j) / S) + 3, (1LL << j) - 1); n = c.range(-most, most);
        if (n >= (W)1 << j) n = ((W)1 << j) - 1; if (n <= -((W)1 << j)) n = -((W)1 << j) + 1;
    }
    d = (double)(L)n / (double)(1LL << j);
}
template <class T> static T mk(const Info<T>& I, L k) { return T::from_format_value((typename T::format_type)k, I.pol); }

template <class T> static L gen_k(Case& c, const Info<T>& I) {
    L mx = lim<typename T::format_type>();
    switch (c.draw(5)) {
    case 0: return c.range(-3, 3);
    case 1: return c.range(-3, 3) * I.S;
    case 2: return c.range(-20, 20) * I.S / 4 + c.range(-1, 1);
    case 3: return c.range(-1000, 1000);
    default: return c.range(-mx, mx);
    }
}
template <class T> static void construct_from(Case& c, const Info<T>& I) {
    typedef typename T::format_type F;
    L mx = lim<F>();
    W n; int j; double d; gen_dyadic(c, I.S, mx, n, j, d);
    VP_NOTE(c, I.name << " value " << d);
    L want = rnd(n * I.S, (W)1 << j, I.r);
    T a(d, I.pol);
    c.label_if((n * I.S) % ((W)1 << j) != 0, "inexact");
    c.nontrivial();
    VP_CHECK(c, a.get_scaled_value() == want, "construct", a.get_scaled_value() << " expected " << want);
    T b(I.pol); b = d;
    VP_CHECK(c, b.get_scaled_value() == want, "assign", b.get_scaled_value() << " expected " << want);
    L i = floordiv(n, (W)1 << j);
    if (i * I.S <= mx && i * I.S >= -mx) {
        T e((int)i, I.pol);
        VP_CHECK(c, e.get_scaled_value() == i * I.S, "construct-int", e.get_scaled_value() << " from " << i);
        T f((L)i, I.pol);
        VP_CHECK(c, f.get_scaled_value() == i * I.S, "construct-long", f.get_scaled_value() << " from " << i);
    }
    // conversion back
    L k = gen_k(c, I); T x = mk(I, k);
    VP_NOTE(c, "scaled " << k);
    VP_CHECK(c, x.get_scaled_value() == k, "from_format", x.get_scaled_value());
    VP_CHECK(c, x.template convert_to<double>() == (double)k / (double)I.S, "to-double", x.template convert_to<double>() << " expected " << (double)k / I.S);
    T back(x.template convert_to<double>(), I.pol);
    if (I.r == EVEN)
        VP_CHECK(c, back.get_scaled_value() == k, "round-trip", back.get_scaled_value());
    else
        VP_CHECK(c, std::abs((L)back.get_scaled_value() - k) <= 1, "round-trip-near", back.get_scaled_value());
    L q = x.template convert_to<long>();
    VP_CHECK(c, q == (I.binary ? floordiv(k, I.S) : k / I.S) , "to-int", q);
    VP_CHECK(c, x.epsilon().get_scaled_value() == 1, "epsilon", "");
    // out of range is refused, not wrapped
    if (sizeof(F) < 8) {
        double big = ((double)std::numeric_limits<F>::max() + 2 + c.range(0, 100000)) / (double)I.S;
        if (c.chance(1, 2)) big = -big - 2.0 / I.S;
        bool threw = false; L got = 0;
        try { T y(big, I.pol); got = y.get_scaled_value(); } catch (const boost::numeric::bad_numeric_cast&) { threw = true; }
        VP_CHECK(c, threw, "range", "accepted " << big << " as " << got);
    }
}
template <class T> static bool fits(W v) { typedef typename T::format_type F; return v <= (W)std::numeric_limits<F>::max() && v >= (W)std::numeric_limits<F>::min(); }

template <class T> static void arithmetic(Case& c, const Info<T>& I) {
    L k = gen_k(c, I), m = gen_k(c, I);
    if (c.chance(1, 8)) m = k;
    T a = mk(I, k), b = mk(I, m);
    VP_NOTE(c, I.name << " " << k << "/" << I.S << " and " << m << "/" << I.S);
    c.nontrivial();
    if (fits<T>((W)k + m)) { VP_CHECK(c, (a + b).get_scaled_value() == k + m, "sum", (a + b).get_scaled_value());
        T s = a; s += b; VP_CHECK(c, s.get_scaled_value() == k + m, "sum-assign", "");
        VP_CHECK(c, (s - b).get_scaled_value() == k, "sum-inverse", ""); }
    if (fits<T>((W)k - m)) { VP_CHECK(c, (a - b).get_scaled_value() == k - m, "difference", (a - b).get_scaled_value()); }
    VP_CHECK(c, (-a).get_scaled_value() == -k, "negate", "");
    VP_CHECK(c, fabs(a).get_scaled_value() == std::abs(k), "fabs", "");
    if (std::abs(k) < (1LL << 52) && std::abs(m) < (1LL << 52))
        VP_CHECK(c, copysign(a, b).get_scaled_value() == (m < 0 ? -std::abs(k) : std::abs(k)), "copysign", copysign(a, b).get_scaled_value());
    // products and quotients are exact to the last place
    W p = (W)k * m;
    if (p < ((W)1 << 62) && p > -((W)1 << 62)) {
        L q = I.binary ? floordiv(p, I.S) : (L)(p / I.S);
        if (fits<T>(q)) {
            L g = (a * b).get_scaled_value();
            c.label_if(p % I.S != 0, "inexact-product");
            VP_CHECK(c, g == q, "product", g << " expected " << q);
            T s = a; s *= b; VP_CHECK(c, s.get_scaled_value() == q, "product-assign", "");
            VP_CHECK(c, (b * a).get_scaled_value() == q, "product-commutes", "");
        } else if (sizeof(typename T::format_type) == 4) {
            bool threw = false; L g = 0;
            try { g = (a * b).get_scaled_value(); } catch (const boost::numeric::bad_numeric_cast&) { threw = true; }
            c.label("overflowing-product");
            VP_CHECK(c, threw, "product-range", "gave " << g);
        }
    }
    W nu = (W)k * I.S;
    if (m != 0 && nu < ((W)1 << 62) && nu > -((W)1 << 62)) {
        L q = (L)(nu / m);
        if (fits<T>(q)) {
            L g = (a / b).get_scaled_value();
            VP_CHECK(c, g == q, "quotient", g << " expected " << q);
            T s = a; s /= b; VP_CHECK(c, s.get_scaled_value() == q, "quotient-assign", "");
        }
    }
    if (m != 0 && !(k == std::numeric_limits<typename T::format_type>::min() && m == -1))
        VP_CHECK(c, fmod(a, b).get_scaled_value() == k % m, "fmod", fmod(a, b).get_scaled_value());
    if (fits<T>((W)k + I.S)) { T s = a; T o = s++; VP_CHECK(c, o.get_scaled_value() == k && s.get_scaled_value() == k + I.S, "post-increment", s.get_scaled_value());
        T u = a; VP_CHECK(c, (++u).get_scaled_value() == k + I.S, "increment", ""); }
    if (fits<T>((W)k - I.S)) { T s = a; T o = s--; VP_CHECK(c, o.get_scaled_value() == k && s.get_scaled_value() == k - I.S, "post-decrement", s.get_scaled_value());
        T u = a; VP_CHECK(c, (--u).get_scaled_value() == k - I.S, "decrement", ""); }
    // order
    VP_CHECK(c, (a < b) == (k < m) && (a > b) == (k > m) && (a <= b) == (k <= m) && (a >= b) == (k >= m) && (a == b) == (k == m) && (a != b) == (k != m), "order", "");
    VP_CHECK(c, !a == (k == 0), "not", "");
    bool t = a ? true : false;
    VP_CHECK(c, t == (k != 0), "bool", "");
    T x = a, y = b; x.swap(y);
    VP_CHECK(c, x.get_scaled_value() == m && y.get_scaled_value() == k, "swap", "");
}
template <class T, class N> static void mixed_with(Case& c, const Info<T>& I, N n, W sn, const char* what) {
    // sn: the scaled integer that n stands for exactly
    L k = gen_k(c, I); T a = mk(I, k);
    VP_NOTE(c, I.name << " " << k << "/" << I.S << " with " << what << " " << (double)n);
    if (!fits<T>(sn)) return;
    L m = (L)sn;
    c.nontrivial();
    if (fits<T>((W)k + m)) VP_CHECK(c, (a + n).get_scaled_value() == k + m && (n + a).get_scaled_value() == k + m, "sum", (a + n).get_scaled_value());
    if (fits<T>((W)k - m)) VP_CHECK(c, (a - n).get_scaled_value() == k - m, "difference", (a - n).get_scaled_value());
    if (fits<T>((W)m - k)) VP_CHECK(c, (n - a).get_scaled_value() == m - k, "difference-left", (n - a).get_scaled_value() << " expected " << m - k);
    W p = (W)k * m;
    if (p < ((W)1 << 62) && p > -((W)1 << 62)) {
        L q = I.binary ? floordiv(p, I.S) : (L)(p / I.S);
        if (fits<T>(q)) VP_CHECK(c, (a * n).get_scaled_value() == q && (n * a).get_scaled_value() == q, "product", (a * n).get_scaled_value() << " expected " << q);
    }
    W nu = (W)k * I.S;
    if (m != 0 && nu < ((W)1 << 62) && nu > -((W)1 << 62) && fits<T>(nu / m)) VP_CHECK(c, (a / n).get_scaled_value() == (L)(nu / m), "quotient", (a / n).get_scaled_value());
    W nl = (W)m * I.S;
    if (k != 0 && nl < ((W)1 << 62) && nl > -((W)1 << 62) && fits<T>(nl / k)) VP_CHECK(c, (n / a).get_scaled_value() == (L)(nl / k), "quotient-left", (n / a).get_scaled_value() << " expected " << (L)(nl / k));
    VP_CHECK(c, (a < n) == (k < m) && (a > n) == (k > m) && (a <= n) == (k <= m) && (a >= n) == (k >= m) && (a == n) == (k == m) && (a != n) == (k != m), "order", "");
    VP_CHECK(c, (n < a) == (m < k) && (n > a) == (m > k) && (n <= a) == (m <= k) && (n >= a) == (m >= k) && (n == a) == (k == m) && (n != a) == (k != m), "order-left", "");
}
template <class T> static void mixed(Case& c, const Info<T>& I) {
    L mx = lim<typename T::format_type>() / I.S; if (mx > 2000000) mx = 2000000; if (mx > 2) mx = mx / 2;
    int i = (int)(c.chance(1, 2) ? c.range(-2, 2) : c.range(-mx, mx)); if (mx < 2) i = (int)c.range(-1, 0);
    switch (c.draw(4)) {
    case 0: mixed_with<T, int>(c, I, i, (W)i * I.S, "int"); break;
    case 1: mixed_with<T, long>(c, I, i, (W)i * I.S, "long"); break;
    case 2: mixed_with<T, short>(c, I, (short)(i % 100), (W)(i % 100) * I.S, "short"); break;
    default: {
        W n; int j; double d; gen_dyadic(c, I.S, lim<typename T::format_type>(), n, j, d);
        W s = n * I.S;
        if (s % ((W)1 << j)) { s = (W)floordiv(n, (W)1 << j) * I.S; d = std::floor(d); } else s /= ((W)1 << j);
        mixed_with<T, double>(c, I, d, s, "double");
    } }
}
// quantities over fixed point values: the unit changes nothing about the value
template <class T, class N> static void quantity_with(Case& c, const Info<T>& I, N n, W sn, const char* what) {
    typedef boost::units::quantity<boost::units::si::length, T> Q;
    L k = gen_k(c, I); T a = mk(I, k); Q q = Q::from_value(a);
    VP_NOTE(c, I.name << " " << k << "/" << I.S << " m with " << what << " " << (double)n);
    VP_CHECK(c, q.value().get_scaled_value() == k, "value", q.value().get_scaled_value());
    if (!fits<T>(sn)) return;
    L m = (L)sn; c.nontrivial();
    if (fits<T>((W)k + m)) VP_CHECK(c, (q + n).value().get_scaled_value() == k + m && (n + q).value().get_scaled_value() == k + m, "sum", (q + n).value().get_scaled_value() << " and " << (n + q).value().get_scaled_value());
    if (fits<T>((W)k - m)) VP_CHECK(c, (q - n).value().get_scaled_value() == k - m, "difference", (q - n).value().get_scaled_value());
    if (fits<T>((W)m - k)) VP_CHECK(c, (n - q).value().get_scaled_value() == m - k, "difference-left", (n - q).value().get_scaled_value());
    W p = (W)k * m;
    if (p < ((W)1 << 62) && p > -((W)1 << 62)) {
        L r = I.binary ? floordiv(p, I.S) : (L)(p / I.S);
        if (fits<T>(r)) VP_CHECK(c, (q * n).value().get_scaled_value() == r && (n * q).value().get_scaled_value() == r, "product", (q * n).value().get_scaled_value() << " and " << (n * q).value().get_scaled_value() << " expected " << r);
    }
    W nu = (W)k * I.S, nl = (W)m * I.S; W big = (W)1 << 62;
    if (m != 0 && nu < big && nu > -big && fits<T>(nu / m)) VP_CHECK(c, (q / n).value().get_scaled_value() == (L)(nu / m), "quotient", (q / n).value().get_scaled_value());
    if (k != 0 && nl < big && nl > -big && fits<T>(nl / k)) VP_CHECK(c, (n / q).value().get_scaled_value() == (L)(nl / k), "quotient-left", (n / q).value().get_scaled_value() << " expected " << (L)(nl / k));
    L k2 = c.chance(1, 4) ? k : gen_k(c, I); Q o = Q::from_value(mk(I, k2));
    VP_NOTE(c, "and " << k2 << "/" << I.S << " m");
    if (fits<T>((W)k + k2)) VP_CHECK(c, (q + o).value().get_scaled_value() == k + k2, "sum-quantity", (q + o).value().get_scaled_value());
    if (fits<T>((W)k - k2)) VP_CHECK(c, (q - o).value().get_scaled_value() == k - k2, "difference-quantity", (q - o).value().get_scaled_value());
    VP_CHECK(c, (q < o) == (k < k2) && (q == o) == (k == k2) && (q >= o) == (k >= k2), "order-quantity", "");
}
template <class T> static void quantities_of(Case& c, const Info<T>& I) {
    L mx = lim<typename T::format_type>() / I.S; if (mx > 2000000) mx = 2000000; if (mx > 2) mx = mx / 2;
    int i = (int)(c.chance(1, 2) ? c.range(-2, 2) : c.range(-mx, mx)); if (mx < 2) i = (int)c.range(-1, 0);
    if (c.chance(1, 2)) return quantity_with<T, int>(c, I, i, (W)i * I.S, "int");
    W n; int j; double d; gen_dyadic(c, I.S, lim<typename T::format_type>(), n, j, d);
    W s = n * I.S;
    if (s % ((W)1 << j)) { s = (W)floordiv(n, (W)1 << j) * I.S; d = std::floor(d); } else s /= ((W)1 << j);
    quantity_with<T, double>(c, I, d, s, "double");
}
template <class T> static void stream(Case& c, const Info<T>& I) {
    L k = gen_k(c, I); L b = sizeof(typename T::format_type) == 2 ? 9999 : 999999999LL;
    if (k > b || k < -b) k %= b;
    T a = mk(I, k); std::ostringstream os; os << a;
    VP_NOTE(c, I.name << " " << k << "/" << I.S << " printed '" << os.str() << "'");
    c.nontrivial();
    char* e; std::string text = os.str(); double d = std::strtod(text.c_str(), &e);
    VP_CHECK(c, *e == 0 && std::fabs(d - (double)k / I.S) <= 1e-9 * (1 + std::fabs(d)) , "print", d << " expected " << (double)k / I.S);
    std::istringstream is(os.str()); T r(I.pol); is >> r;
    VP_CHECK(c, !is.fail() && r.get_scaled_value() == k, "round-trip", r.get_scaled_value());
}
// copies between numbers of different precision keep the value to the last place of the target
template <class A, class B> static void copy_between(Case& c, const Info<A>& I, const Info<B>& J) {
    if (std::is_same<A, B>::value) {  // assignment within a type takes the scale along
        L k = c.range(-5000, 5000); A a = mk(I, k), b = mk(I, k + 1); b = a;
        VP_NOTE(c, I.name << " " << k << "/" << I.S); c.nontrivial();
        A d(a);
        VP_CHECK(c, b.get_scaled_value() == k && d.get_scaled_value() == k && b.template convert_to<double>() == (double)k / I.S && d.template convert_to<double>() == (double)k / I.S, "same-type", b.get_scaled_value());
        return;
    }
    L k = c.chance(1, 2) ? c.range(-5000, 5000) : c.range(-20, 20) * I.S + c.range(-2, 2);
    W n = (W)k * J.S;
    if (!fits<B>(n / I.S) || !fits<A>(k)) { c.discard(); return; }
    A a = mk(I, k);
    VP_NOTE(c, I.name << " " << k << "/" << I.S << " to " << J.name);
    c.nontrivial();
    B b(J.pol); b = a;
    L g = b.get_scaled_value();
    if (n % I.S == 0)
        VP_CHECK(c, J.r == EVEN ? g == (L)(n / I.S) : std::abs(g - (L)(n / I.S)) <= 1, "assign", g << " expected " << (L)(n / I.S));
    else
        VP_CHECK(c, std::fabs((double)g - (double)(L)n / (double)I.S) < (J.r == EVEN ? 0.5000001 : 1.0000001), "assign-near", g << " expected " << (double)(L)n / (double)I.S);
    if (geometrix::is_static<typename B::scale_policy>::value) {
        B d(a);
        VP_CHECK(c, d.get_scaled_value() == g, "construct", d.get_scaled_value() << " assigned " << g);
    }
}

template <class P> static typename std::enable_if<geometrix::is_static<P>::value, P>::type mkpol(unsigned) { return P(); }
template <class P> static typename std::enable_if<!geometrix::is_static<P>::value, P>::type mkpol(unsigned e) { return P(e); }
template <class T> static Info<T> info(Case& c, L S, Rnd r, bool bin, int radix, const char* name) {
    unsigned e = 0;
    if (radix) { e = (unsigned)c.range(1, radix == 10 ? 5 : 12); S = 1; for (unsigned i = 0; i < e; ++i) S *= radix; }
    return Info<T>{S, r, bin, mkpol<typename T::scale_policy>(e), name};
}

template <class Fn> static void each(Case& c, Fn fn) {
    typedef generic_compile_time_scale_policy<10, 2> c102; typedef generic_compile_time_scale_policy<10, 4> c104; typedef generic_compile_time_scale_policy<10, 6> c106;
    typedef generic_compile_time_scale_policy<2, 8> c28; typedef generic_compile_time_scale_policy<3, 3> c33;
    switch (c.draw(10)) {
    case 0: return fn(info<FP<int, c102, round_half_to_even>>(c, 100, EVEN, false, 0, "int 10^2 half-even"));
    case 1: return fn(info<FP<int, c104, round_toward_zero>>(c, 10000, ZERO, false, 0, "int 10^4 toward-zero"));
    case 2: return fn(info<FP<long, c106, round_half_to_even>>(c, 1000000, EVEN, false, 0, "long 10^6 half-even"));
    case 3: return fn(info<FP<int, c28, round_half_to_even>>(c, 256, EVEN, false, 0, "int 2^8 half-even"));
    case 4: return fn(info<FP<int, c33, round_toward_infinity<void>>>(c, 27, UP, false, 0, "int 3^3 up"));
    case 5: return fn(info<FP<int, generic_run_time_scale_policy<10>, round_half_to_even>>(c, 0, EVEN, false, 10, "int runtime-10 half-even"));
    case 6: return fn(info<FP<long, generic_run_time_scale_policy<10>, round_toward_neg_infinity<void>>>(c, 0, DOWN, false, 10, "long runtime-10 down"));
    case 7: return fn(info<FP<int, binary_compile_time_scale_policy<8>, round_half_to_even>>(c, 256, EVEN, true, 0, "int binary-8 half-even"));
    case 8: return fn(info<FP<int, binary_run_time_scale_policy, round_half_to_even>>(c, 0, EVEN, true, 2, "int runtime-binary half-even"));
    default: return fn(info<FP<short, c102, round_half_to_even>>(c, 100, EVEN, false, 0, "short 10^2 half-even"));
    }
}
VP_ASPECT(conversion, 2000000, 8000000, "a value was converted into the fixed point type") { each(c, [&](auto const& I) { construct_from(c, I); }); }
VP_ASPECT(arithmetic, 3000000, 12000000, "two numbers were combined") { each(c, [&](auto const& I) { arithmetic(c, I); }); }
VP_ASPECT(mixed_arithmetic, 2500000, 10000000, "a fixed point number met a built in number that it can represent") { each(c, [&](auto const& I) { mixed(c, I); }); }
VP_ASPECT(copies, 2000000, 8000000, "the value fits in the target type") {
    each(c, [&](auto const& I) {
        if (c.chance(1, 2)) copy_between(c, I, info<FP<int, generic_compile_time_scale_policy<10, 2>, round_half_to_even>>(c, 100, EVEN, false, 0, "int 10^2 half-even"));
        else if (c.chance(1, 2)) copy_between(c, I, info<FP<long, generic_compile_time_scale_policy<10, 5>, round_toward_zero>>(c, 100000, ZERO, false, 0, "long 10^5 toward-zero"));
        else copy_between(c, I, info<FP<int, generic_run_time_scale_policy<10>, round_half_to_even>>(c, 0, EVEN, false, 10, "int runtime-10 half-even"));
    });
}
VP_ASPECT(quantities, 1500000, 6000000, "a quantity over a fixed point value met a number that it can represent") {
    typedef generic_compile_time_scale_policy<10, 2> c102; typedef generic_compile_time_scale_policy<10, 6> c106;
    switch (c.draw(3)) {
    case 0: return quantities_of(c, info<FP<int, c102, round_half_to_even>>(c, 100, EVEN, false, 0, "int 10^2 half-even"));
    case 1: return quantities_of(c, info<FP<long, c106, round_half_to_even>>(c, 1000000, EVEN, false, 0, "long 10^6 half-even"));
    default: return quantities_of(c, info<FP<int, binary_compile_time_scale_policy<8>, round_half_to_even>>(c, 256, EVEN, true, 0, "int binary-8 half-even"));
    }
}
VP_ASPECT(text, 1200000, 4800000, "a number was printed and read back") {
    switch (c.draw(4)) {
    case 0: return stream(c, info<FP<int, generic_compile_time_scale_policy<10, 2>, round_half_to_even>>(c, 100, EVEN, false, 0, "int 10^2 half-even"));
    case 1: return stream(c, info<FP<long, generic_compile_time_scale_policy<10, 6>, round_half_to_even>>(c, 1000000, EVEN, false, 0, "long 10^6 half-even"));
    case 2: return stream(c, info<FP<int, generic_run_time_scale_policy<10>, round_half_to_even>>(c, 0, EVEN, false, 10, "int runtime-10 half-even"));
    default: return stream(c, info<FP<short, generic_compile_time_scale_policy<10, 2>, round_half_to_even>>(c, 100, EVEN, false, 0, "short 10^2 half-even"));
    }
}
VP_ASPECT(limits, 5000, 20000, "numeric limits were compared with the format") {
    c.nontrivial();
    typedef FP<int, generic_compile_time_scale_policy<10, 2>, round_half_to_even> T; typedef std::numeric_limits<T> NL;
    VP_CHECK(c, NL::is_specialized && NL::is_exact && NL::is_signed && !NL::is_integer && NL::radix == 10, "traits", "");
    VP_CHECK(c, (NL::max)().get_scaled_value() == INT_MAX && (NL::min)().get_scaled_value() == INT_MIN && NL::epsilon().get_scaled_value() == 1, "bounds", "");
    L k = c.range(INT_MIN, INT_MAX); T a = T::from_format_value((int)k);
    VP_CHECK(c, a <= (NL::max)() && a >= (NL::min)() && (k == 0 || fabs(T::from_format_value((int)(k / 2))) >= NL::epsilon() || k / 2 == 0), "ordering", "");
    VP_CHECK(c, a.max().get_scaled_value() == INT_MAX && a.min().get_scaled_value() == INT_MIN, "members", "");
}
