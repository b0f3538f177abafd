// P26: number comparison policies, orderings of points and segments, collinear interval sets.
#include "gl.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/numeric/boost_units_quantity.hpp>
#include <boost/units/systems/si.hpp>
#include <set>
#include <tuple>
using namespace geometrix; using namespace gl; using vp::Case;

// three-way expectation: -1 less, 0 equal, 1 greater, 9 too close to the tolerance to tell
template <class Pol, class A, class B> static void trichotomy(Case& c, const char* name, const Pol& p, A u, B v, int want) {
    bool lt = p.less_than(u, v), eq = p.equals(u, v), gt = p.greater_than(u, v), le = p.less_than_or_equal(u, v), ge = p.greater_than_or_equal(u, v);
    if (want != 9) {
        VP_CHECK(c, lt == (want < 0), std::string(name) + "-less", "less_than(" << u << "," << v << ") = " << lt << " expected order " << want);
        VP_CHECK(c, eq == (want == 0), std::string(name) + "-equals", "equals(" << u << "," << v << ") = " << eq << " expected order " << want);
        VP_CHECK(c, gt == (want > 0), std::string(name) + "-greater", "greater_than(" << u << "," << v << ") = " << gt << " expected order " << want);
        VP_CHECK(c, le == (want <= 0), std::string(name) + "-less-equal", "less_than_or_equal(" << u << "," << v << ") = " << le << " expected order " << want);
        VP_CHECK(c, ge == (want >= 0), std::string(name) + "-greater-equal", "greater_than_or_equal(" << u << "," << v << ") = " << ge << " expected order " << want);
    } else {
        VP_CHECK(c, !(lt && gt), std::string(name) + "-both", "less and greater than at once: " << u << "," << v);
        VP_CHECK(c, !(lt && !le) && !(gt && !ge), std::string(name) + "-implied", "less without less-or-equal: " << u << "," << v);
    }
    VP_CHECK(c, eq == p.equals(v, u) && lt == p.greater_than(v, u) && le == p.greater_than_or_equal(v, u), std::string(name) + "-swap", "comparison changes when swapped: " << u << "," << v);
    VP_CHECK(c, less_than<Pol>(p)(u, v) == lt && greater_than<Pol>(p)(u, v) == gt && less_than_or_equal<Pol>(p)(u, v) == le && greater_than_or_equal<Pol>(p)(u, v) == ge && equals<Pol>(p)(u, v) == eq, std::string(name) + "-functor", "functor disagrees");
}
static int order(LD u, LD v, LD tol) { LD d = fabsl(u - v); if (fabsl(d - tol) <= 1e-9L * tol + 4e-16L * (fabsl(u) + fabsl(v)) && d != 0) return 9; return d <= tol ? 0 : u < v ? -1 : 1; }
static double value(Case& c) {
    switch (c.draw(5)) { case 0: return (double)c.around(5); case 1: return (double)c.around(1000) / 64.0; case 2: return std::ldexp((double)c.around(4096), (int)c.range(-60, 40)); case 3: return (double)c.around(1000) * 0.01; default: return (double)c.around(1000000) * 1e-3; }
}
// the free functions say the same as the policies
template <class A, class B, class T> static void free_functions(Case& c, A u, B v, T tol, int wantAbs, int wantFrac) {
    absolute_tolerance_comparison_policy<T> ab(tol); fraction_tolerance_comparison_policy<T> fr(tol);
    VP_CHECK(c, equals_within_absolute_tolerance(u, v, tol) == ab.equals(u, v) && less_than_with_absolute_tolerance(u, v, tol) == ab.less_than(u, v) && less_than_or_equal_with_absolute_tolerance(u, v, tol) == ab.less_than_or_equal(u, v) && greater_than_with_absolute_tolerance(u, v, tol) == ab.greater_than(u, v) && greater_than_or_equal_with_absolute_tolerance(u, v, tol) == ab.greater_than_or_equal(u, v), "free-absolute", u << " and " << v << " within " << tol);
    if (wantAbs != 9) VP_CHECK(c, equals_within_absolute_tolerance(u, v, tol) == (wantAbs == 0) && less_than_with_absolute_tolerance(u, v, tol) == (wantAbs < 0) && greater_than_with_absolute_tolerance(u, v, tol) == (wantAbs > 0) && less_than_or_equal_with_absolute_tolerance(u, v, tol) == (wantAbs <= 0) && greater_than_or_equal_with_absolute_tolerance(u, v, tol) == (wantAbs >= 0), "free-absolute-order", u << " and " << v << " within " << tol << " expected order " << wantAbs);
    VP_CHECK(c, equals_within_fraction_tolerance(u, v, tol) == fr.equals(u, v) && less_than_with_fraction_tolerance(u, v, tol) == fr.less_than(u, v) && less_than_or_equal_with_fraction_tolerance(u, v, tol) == fr.less_than_or_equal(u, v) && greater_than_with_fraction_tolerance(u, v, tol) == fr.greater_than(u, v) && greater_than_or_equal_with_fraction_tolerance(u, v, tol) == fr.greater_than_or_equal(u, v), "free-fraction", u << " and " << v << " within " << tol);
    if (wantFrac != 9) VP_CHECK(c, equals_within_fraction_tolerance(u, v, tol) == (wantFrac == 0) && less_than_with_fraction_tolerance(u, v, tol) == (wantFrac < 0) && greater_than_with_fraction_tolerance(u, v, tol) == (wantFrac > 0) && less_than_or_equal_with_fraction_tolerance(u, v, tol) == (wantFrac <= 0) && greater_than_or_equal_with_fraction_tolerance(u, v, tol) == (wantFrac >= 0), "free-fraction-order", u << " and " << v << " within " << tol << " expected order " << wantFrac);
}
VP_ASPECT(free_comparisons, 1200000, 5000000, "two numbers near each other or of any magnitude up to 1e300, and a tolerance; non-trivial: within 100 tolerances or more than 1e290 apart in ratio") {
    double tol = c.pick<double>({1e-10, 1e-6, 1e-2, 0.25, 0.9}), u = value(c), v; int mode = (int)c.draw(4); double k = (double)c.around(40) / 16.0;
    if (mode == 3) { u = std::ldexp((double)c.around(64), (int)c.range(-1000, 990)); v = std::ldexp((double)c.around(64), (int)c.range(-1000, 990)); } else v = mode == 0 ? u + k * tol : mode == 1 ? u * (1 + k * tol) : value(c);
    VP_NOTE(c, "u " << u << " v " << v << " tolerance " << tol); LD m = std::min(fabsl((LD)u), fabsl((LD)v)), M = std::max(fabsl((LD)u), fabsl((LD)v)); if (u != v && (std::fabs(u - v) < 100 * tol * (1 + std::fabs(u)) || (m > 0 && M / m > 1e290L))) c.nontrivial();
    int wa = order(u, v, tol), wf = u == 0 || v == 0 ? order(u, v, tol) : order(u, v, tol * m);
    free_functions(c, u, v, tol, wa, wf);
    { int iu = (int)c.around(30); double dv = iu + k * tol; int w = order(iu, dv, tol); if (w != 9) VP_CHECK(c, equals_within_absolute_tolerance(iu, dv, tol) == (w == 0) && less_than_with_absolute_tolerance(iu, dv, tol) == (w < 0) && greater_than_or_equal_with_absolute_tolerance(dv, iu, tol) == (w <= 0), "free-mixed", iu << " and " << dv); }
    if (u != 0 && v != 0) { int w = order(u, v, tol * M); if (w != 9) VP_CHECK(c, equals_within_tolerance(u, v, tol, floating_point_comparison_type::FPC_WEAK) == (w == 0), "weak-fraction", u << " and " << v << " within " << tol << " of the larger: expected " << (w == 0)); if (wf != 9) VP_CHECK(c, equals_within_tolerance(u, v, tol) == (wf == 0) && equals_within_tolerance(u, v, -tol) == (wf == 0), "strong-fraction", u << " and " << v); }
    VP_CHECK(c, absolute_value(u) == std::fabs(u) && min_copy(u, v) == std::min(u, v) && max_copy(u, v) == std::max(u, v) && sign(u) == (u >= 0 ? 1 : -1), "min-max", u << "," << v);
    { double w = value(c), lo = std::min(v, w), hi = std::max(v, w); VP_CHECK(c, geometrix::clamp(u, lo, hi) == std::min(std::max(u, lo), hi), "clamp", u << " to [" << lo << "," << hi << "] gives " << geometrix::clamp(u, lo, hi)); }
    { absolute_tolerance_comparison_policy<double> p(tol); coordinate_less_compare<double, absolute_tolerance_comparison_policy<double>> q(p); VP_CHECK(c, q(u, v) == p.less_than(u, v), "coordinate-compare", u << "," << v << " " << q(u, v)); }
}
VP_ASPECT(policies, 3600000, 15000000, "two numbers, often within a few tolerances of each other, and a tolerance; non-trivial: neither identical nor 100 tolerances apart") {
    double u = value(c), tol = c.pick<double>({1e-10, 1e-6, 1e-2, 0.25, 1.0}); double v;
    int mode = (int)c.draw(4); double k = (double)c.around(40) / 16.0;
    v = mode == 0 ? value(c) : mode == 1 ? u + k * tol : mode == 2 ? u * (1 + k * tol) : u + k * tol * (2 * std::fabs(u) + 1);
    VP_NOTE(c, "u " << u << " v " << v << " tolerance " << tol); if (u != v && std::fabs(u - v) < 100 * tol * (1 + std::fabs(u))) c.nontrivial();
    trichotomy(c, "absolute", absolute_tolerance_comparison_policy<double>(tol), u, v, order(u, v, tol));
    trichotomy(c, "relative", relative_tolerance_comparison_policy<double>(tol), u, v, order(u, v, tol * (fabsl((LD)u) + fabsl((LD)v) + 1)));
    trichotomy(c, "direct", direct_comparison_policy(), u, v, u < v ? -1 : u > v);
    double at = c.pick<double>({1e-10, 1e-3, 0.5});
    LD m = std::min(fabsl((LD)u), fabsl((LD)v)); int w;
    if (u == 0 || v == 0) w = order(u, v, at); else w = order(u, v, tol * m);
    trichotomy(c, "fraction", fraction_tolerance_comparison_policy<double>(tol, at), u, v, w);
    int iu = (int)c.around(20), iv = (int)c.around(20);
    trichotomy(c, "direct-int", direct_comparison_policy(), iu, iv, iu < iv ? -1 : iu > iv);
    trichotomy(c, "absolute-int", absolute_tolerance_comparison_policy<double>(1e-10), iu, iv, iu < iv ? -1 : iu > iv);
}
VP_ASPECT(mapped, 1800000, 7200000, "numbers and quantities compared through a policy that maps types to tolerances; non-trivial: the tolerances disagree about the pair") {
    using namespace boost::units; typedef quantity<si::length, double> length_t; typedef quantity<si::time, double> time_t_;
    typedef absolute_tolerance_comparison_policy<double> abs_t;
    typedef mapped_tolerance_comparison_policy<abs_t, boost::fusion::pair<length_t, abs_t>, boost::fusion::pair<double, abs_t>> pol;
    double t0 = c.pick<double>({1e-10, 0.5}), t1 = c.pick<double>({1e-3, 2.0}), t2 = c.pick<double>({1e-6, 0.125});
    pol p(abs_t(t0), boost::fusion::make_pair<length_t>(abs_t(t1)), boost::fusion::make_pair<double>(abs_t(t2)));
    double u = (double)c.around(40) / 8.0, v = u + (double)c.around(40) / 16.0 * c.pick<double>({t0, t1, t2}); VP_NOTE(c, "u " << u << " v " << v << " tolerances " << t0 << " " << t1 << " " << t2);
    int a = order(u, v, t1), b = order(u, v, t2), d = order(u, v, t0); if (a != b || b != d) c.nontrivial();
    length_t lu = u * si::meters, lv = v * si::meters; time_t_ su = u * si::seconds, sv = v * si::seconds;
    { auto q = make_mapped_tolerance_comparison_policy(abs_t(t0), boost::fusion::make_pair<length_t>(abs_t(t1)), boost::fusion::make_pair<double>(abs_t(t2))); pol one(t1);
      VP_CHECK(c, q.less_than(lu, lv) == p.less_than(lu, lv) && q.equals(su, sv) == p.equals(su, sv) && q.greater_than(u, v) == p.greater_than(u, v) && q.less_than_or_equal(lu, lv) == p.less_than_or_equal(lu, lv) && q.greater_than_or_equal(u, v) == p.greater_than_or_equal(u, v), "mapped-make", "");
      if (a != 9) VP_CHECK(c, one.less_than(lu, lv) == (a < 0) && one.equals(su, sv) == (a == 0) && one.greater_than(u, v) == (a > 0) && one.equals(u, v) == (a == 0) && one.less_than(su, sv) == (a < 0), "mapped-one-tolerance", ""); }
    if (a != 9) VP_CHECK(c, p.less_than(lu, lv) == (a < 0) && p.equals(lu, lv) == (a == 0) && p.greater_than(lu, lv) == (a > 0) && p.less_than_or_equal(lu, lv) == (a <= 0) && p.greater_than_or_equal(lu, lv) == (a >= 0), "mapped-length", "lengths compare as " << p.less_than(lu, lv) << p.equals(lu, lv) << p.greater_than(lu, lv) << p.less_than_or_equal(lu, lv) << p.greater_than_or_equal(lu, lv));
    if (d != 9) VP_CHECK(c, p.less_than(su, sv) == (d < 0) && p.equals(su, sv) == (d == 0) && p.greater_than(su, sv) == (d > 0) && p.less_than_or_equal(su, sv) == (d <= 0) && p.greater_than_or_equal(su, sv) == (d >= 0), "mapped-default", "unmapped quantities compare as " << p.less_than(su, sv) << p.equals(su, sv) << p.greater_than(su, sv));
    if (b != 9) VP_CHECK(c, p.less_than(u, v) == (b < 0) && p.equals(u, v) == (b == 0) && p.greater_than(u, v) == (b > 0) && p.less_than_or_equal(u, v) == (b <= 0) && p.greater_than_or_equal(u, v) == (b >= 0), "mapped-double", "numbers compare as " << p.less_than(u, v) << p.equals(u, v) << p.greater_than(u, v));
}
VP_ASPECT(orders, 3000000, 12000000, "points and segments on a small grid; non-trivial: the compared objects share a coordinate or an end") {
    I m = c.pick<I>({1, 2, 4, 30}); double sc = c.pick<double>({1.0, 0.25, 8.0}); auto pt3 = [&] { return std::make_tuple(c.around(m), c.around(m), c.around(m)); };
    auto a = pt3(), b = pt3(); if (c.chance(1, 3)) std::get<0>(b) = std::get<0>(a); if (c.chance(1, 3)) std::get<1>(b) = std::get<1>(a);
    typedef std::tuple<I, I, I> T; auto mk = [&](T t) { return P3((double)std::get<0>(t) * sc, (double)std::get<1>(t) * sc, (double)std::get<2>(t) * sc); }; auto mk2 = [&](T t) { return P(V(std::get<0>(t), std::get<1>(t)), sc); };
    VP_NOTE(c, "a (" << std::get<0>(a) << "," << std::get<1>(a) << "," << std::get<2>(a) << ") b (" << std::get<0>(b) << "," << std::get<1>(b) << "," << std::get<2>(b) << ")");
    if (std::get<0>(a) == std::get<0>(b) || std::get<1>(a) == std::get<1>(b)) c.nontrivial();
    auto t2 = [](T t) { return std::make_pair(std::get<0>(t), std::get<1>(t)); }; auto cp = cmp(); typedef decltype(cp) CP; direct_comparison_policy dc; typedef direct_comparison_policy DC;
    VP_CHECK(c, lexicographical_comparer<CP>(cp)(mk(a), mk(b)) == (a < b) && lexicographical_comparer<DC>(dc)(mk(a), mk(b)) == (a < b) && lexicographically_less_than(mk(a), mk(b), cp) == (a < b), "lexicographical-3d", "not " << (a < b));
    VP_CHECK(c, lexicographical_comparer<CP>(cp)(mk2(a), mk2(b)) == (t2(a) < t2(b)) && lexicographically_less_than(mk2(a), mk2(b), dc) == (t2(a) < t2(b)), "lexicographical-2d", "not " << (t2(a) < t2(b)));
    auto rev = [](T t) { return std::make_tuple(std::get<2>(t), std::get<1>(t), std::get<0>(t)); }; auto rev2 = [](T t) { return std::make_pair(std::get<1>(t), std::get<0>(t)); };
    VP_CHECK(c, reverse_lexicographical_point_compare<CP>(cp)(mk(a), mk(b)) == (rev(a) < rev(b)), "reverse-3d", "not " << (rev(a) < rev(b)));
    VP_CHECK(c, reverse_lexicographical_point_compare<CP>(cp)(mk2(a), mk2(b)) == (rev2(a) < rev2(b)), "reverse-2d", "not " << (rev2(a) < rev2(b)));
    auto dk = [](I k, T t) { return std::make_pair(k, t); };
    VP_CHECK(c, (dimension_compare<0, CP>(cp)(mk(a), mk(b)) == (a < b)) && (dimension_compare<1, CP>(cp)(mk(a), mk(b)) == (dk(std::get<1>(a), a) < dk(std::get<1>(b), b))) && (dimension_compare<2, CP>(cp)(mk(a), mk(b)) == (dk(std::get<2>(a), a) < dk(std::get<2>(b), b))), "dimension-compare", "wrong order in one dimension");
    VP_CHECK(c, lexicographical_compare(std::get<0>(a), std::get<0>(b), std::get<1>(a), std::get<1>(b), std::get<2>(a), std::get<2>(b)) == (a < b) && lexicographical_compare(std::get<0>(a), std::get<0>(b), std::get<1>(a), std::get<1>(b)) == (t2(a) < t2(b)), "lexicographical-variadic", "not " << (a < b));
    VP_CHECK(c, numeric_sequence_equals(mk(a), mk(b), cp) == (a == b) && numeric_sequence_equals_3d(mk(a), mk(b), cp) == (a == b) && numeric_sequence_equals(mk2(a), mk2(b), cp) == (t2(a) == t2(b)) && numeric_sequence_equals_2d(mk2(a), mk2(b), cp) == (t2(a) == t2(b)), "sequence-equals", "equality wrong");
    { double tol = 0.5; int i = (int)c.draw(3); double d = (double)c.around(16) / 16.0; P3 p = mk(a); double z[3] = {p[0], p[1], p[2]}; z[i] += d; P3 r(z[0], z[1], z[2]); VP_CHECK(c, numeric_sequence_equals(p, r, cmp(tol)) == (std::fabs(z[i] - p[i]) <= tol), "sequence-tolerance", "coordinate " << i << " off by " << d); }
    std::pair<I, T> pa(c.around(m), a), pb(c.around(m), b); auto L = [](I x, I y) { return x < y; }; auto LT = [](const T& x, const T& y) { return x < y; };
    VP_CHECK(c, pair_first_compare<decltype(L)>(L)(pa, pb) == (pa.first < pb.first) && pair_second_compare<decltype(LT)>(LT)(pa, pb) == (a < b), "pair-compare", "wrong");
    // segments
    V s1 = V(std::get<0>(a), std::get<1>(a)), e1 = V(std::get<2>(a), c.around(m)), s2 = V(std::get<0>(b), std::get<1>(b)), e2 = V(std::get<2>(b), c.around(m)); if (c.chance(1, 3)) s2 = c.chance(1, 2) ? s1 : e1;
    if (s1 == e1 || s2 == e2) return; VP_NOTE(c, " segments " << s1 << e1 << " " << s2 << e2); V l1 = std::min(s1, e1), u1 = std::max(s1, e1), l2 = std::min(s2, e2), u2 = std::max(s2, e2); S2 A = Seg(s1, e1, sc), B = Seg(s2, e2, sc);
    bool w = l1 < l2 || (l1 == l2 && u1 < u2); VP_CHECK(c, lexicographical_segment_compare<CP>(cp)(A, B) == w, "segment-compare", "not " << w); w = u1 < l2; VP_CHECK(c, segment_interval_compare<CP>(cp)(A, B) == w, "interval-compare", "not " << w);
}
VP_ASPECT(collinear_sets, 900000, 4000000, "history of unions and differences of collinear segments in either direction; non-trivial: an operation touches or overlaps two or more members") {
    V dir = c.pick<V>({V(1, 0), V(0, 1), V(1, 1), V(2, -1), V(-1, 3)}); V o = c.chance(1, 2) ? V(0, 0) : gx::pt(c, 5); double sc = c.pick<double>({1.0, 0.5}); const int N = 12; bool cell[2 * N] = {};
    typedef segment_interval_compare<absolute_tolerance_comparison_policy<double>> IC; std::set<S2, IC> set((IC(cmp()))); int n = (int)c.range(1, 10); std::ostringstream h; bool nt = false;
    for (int k = 0; k < n; ++k) {
        int a = (int)c.draw(2 * N + 1), b = (int)c.draw(2 * N + 1); if (a == b) continue; bool add = c.chance(3, 5); int lo = std::min(a, b), hi = std::max(a, b);
        h << (add ? " +" : " -") << "[" << a << "," << b << "]"; int runs = 0; for (int i = std::max(0, lo - 1); i < std::min(2 * N, hi + 1); ++i) if (cell[i] && (i == std::max(0, lo - 1) || !cell[i - 1])) ++runs; if (runs >= 2) nt = true;
        S2 s = Seg(o + (I)a * dir, o + (I)b * dir, sc); if (add) collinear_segment_union(set, s, cmp()); else collinear_segment_difference(set, s, cmp()); for (int i = lo; i < hi; ++i) cell[i] = add;
        std::vector<std::pair<int, int>> want; for (int i = 0; i < 2 * N; ++i) if (cell[i] && (i == 0 || !cell[i - 1])) { int j = i; while (j < 2 * N && cell[j]) ++j; want.push_back({i, j}); }
        std::vector<std::pair<int, int>> got; for (auto& g : set) { auto at = [&](const P2& p) { for (int i = 0; i <= 2 * N; ++i) if (dist(p, P(o + (I)i * dir, sc)) < 1e-9) return i; return -1; }; int x = at(g.get_start()), y = at(g.get_end()); got.push_back({std::min(x, y), std::max(x, y)}); } std::sort(got.begin(), got.end());
        if (got != want) { std::ostringstream w; for (auto& x : want) w << "[" << x.first << "," << x.second << "]"; w << " got "; for (auto& x : got) w << "[" << x.first << "," << x.second << "]"; VP_NOTE(c, "direction " << dir << " origin " << o << " history" << h.str()); VP_CHECK(c, false, add ? "union" : "difference", "after" << h.str() << " along " << dir << " expected " << w.str()); }
    }
    VP_NOTE(c, "direction " << dir << " origin " << o << " history" << h.str()); if (nt) c.nontrivial();
}
