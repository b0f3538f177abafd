// P33: supporting utilities: memoisation, tagged quantities, allocators, generators, colours, index sequences.
// FALLBACK: -DVP_NO_DETAIL
#include "vp.hpp"
#include <geometrix/utility/memoize.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/utility/tagged_quantity.hpp>
#include <geometrix/utility/private_allocator.hpp>
#include <geometrix/utility/random_generator.hpp>
#include <geometrix/utility/golden_ratio_color_generator.hpp>
#include <geometrix/utility/integer_sequence.hpp>
#include <geometrix/algorithm/hyperplane_partition_policies.hpp>
#include <boost/container/flat_map.hpp>
#include <geometrix/utility/scope_timer.ipp>
#include <dirent.h>
#include <unistd.h>
#include <cstdlib>
#include <cstdio>
#include <fstream>
#include <map>
#include <list>
#include <set>
#include <string>
#include <stdexcept>
#include <utility>
using namespace geometrix;
using vp::Case;

VP_ASPECT(memo, 24000, 100000, "the history asks for some argument twice") {
    typedef std::map<std::tuple<int, int>, std::string> Cache;
    Cache cache; std::map<std::pair<int, int>, int> calls; int m = (int)c.range(1, 6); int salt = (int)c.range(0, 99);
    auto truth = [&](int a, int b) { return std::to_string(a * 1000 + b * 7 + salt); };
    if (c.chance(1, 3)) { cache[std::make_tuple(0, 1)] = "seeded"; }
    bool seeded = !cache.empty();
    auto f = memoize(cache, [&](int a, int b) -> std::string { ++calls[{a, b}]; return truth(a, b); });
    auto g = f; // copies share the cache
    int n = (int)c.range(1, 30); bool again = false;
    for (int i = 0; i < n; ++i) {
        int a = (int)c.range(-m, m), b = (int)c.range(0, m); if (c.chance(1, 6)) { a = 0; b = 1; }
        bool known = cache.count(std::make_tuple(a, b)) != 0; again |= known;
        int before = calls[{a, b}];
        std::string r = c.chance(1, 2) ? f(a, b) : g(a, b);
        VP_NOTE(c, "f(" << a << "," << b << ")=" << r);
        std::string want = seeded && a == 0 && b == 1 ? "seeded" : truth(a, b);
        VP_CHECK(c, r == want, "value", r << " expected " << want);
        VP_CHECK(c, (calls[std::make_pair(a, b)] == before + (known ? 0 : 1)), "calls", calls[std::make_pair(a, b)] - before << " calls, known=" << known);
        VP_CHECK(c, cache.count(std::make_tuple(a, b)) && cache[std::make_tuple(a, b)] == want, "cached", "");
    }
    std::size_t distinct = seeded; for (auto& k : calls) if (k.second) ++distinct;
    VP_CHECK(c, cache.size() == distinct, "cache-size", cache.size() << " expected " << distinct);
    if (again) c.nontrivial();
}
VP_ASPECT(memo_recursive, 9000, 36000, "the recursion overlaps") {
    std::map<std::tuple<int, int>, unsigned long long> cache; long calls = 0;
    std::function<unsigned long long(int, int)> binom;
    binom = memoize(cache, [&](int n, int k) -> unsigned long long { ++calls; return k == 0 || k == n ? 1 : binom(n - 1, k - 1) + binom(n - 1, k); });
    int n = (int)c.range(0, 30), k = (int)c.range(0, n); VP_NOTE(c, "C(" << n << "," << k << ")");
    unsigned long long want = 1; for (int i = 1; i <= k; ++i) want = want * (unsigned long long)(n - k + i) / i;
    VP_CHECK(c, binom(n, k) == want, "value", binom(n, k) << " expected " << want);
    VP_CHECK(c, calls == (long)cache.size() && calls <= (n + 1) * (n + 2) / 2, "calls", calls);
    if (k > 1 && n - k > 1) c.nontrivial();
}
VP_ASPECT(memo_many, 2400, 9600, "more than 256 distinct arguments, each asked for again") {
    // many distinct arguments, an order of asking that differs between rounds, a function that sometimes throws: every argument is computed exactly once, a throw is not remembered
    std::map<std::tuple<int>, long> cache; std::map<int, int> calls; int n = c.chance(1, 8) ? (int)c.range(1000, 6000) : (int)c.range(1, 900), stride = (int)c.pick<int>({1, 7, 11, 13, 17}), bad = c.chance(1, 2) ? (int)c.range(0, n - 1) : -1; bool armed = true;
    auto f = memoize(cache, [&](int a) -> long { if (a == bad && armed) { armed = false; throw std::runtime_error("refused"); } ++calls[a]; return 31L * a - 5; });
    VP_NOTE(c, n << " arguments, stride " << stride << ", throwing at " << bad); int refused = 0;
    for (int round = 0; round < 3; ++round) for (int i = 0; i < n; ++i) {
        int a = round == 0 ? i : round == 1 ? n - 1 - i : (int)((long)i * stride % n);
        try { long r = f(a); VP_CHECK(c, r == 31L * a - 5, "value", "f(" << a << ") is " << r); VP_CHECK(c, calls[a] == 1, "calls", "argument " << a << " computed " << calls[a] << " times of " << n << " arguments"); } catch (const std::runtime_error&) { ++refused; VP_CHECK(c, !cache.count(std::make_tuple(a)), "cached", "a throwing call left an entry for " << a); } }
    VP_CHECK(c, refused == (bad >= 0), "throws", "the throw was seen " << refused << " times");
    VP_CHECK(c, (int)cache.size() == n, "cache-size", cache.size() << " entries for " << n << " arguments"); if (n > 256) c.nontrivial();
}

struct LenTag; struct TimeTag;
template <class Y> static void tagged(Case& c, Y x, Y y) {
    typedef tagged_quantity<LenTag, Y> Q; typedef tagged_quantity<TimeTag, Y> T;
    VP_NOTE(c, +x << " and " << +y); c.nontrivial();
    Q a(x), b(y); T t(y);
    VP_CHECK(c, a.value() == x && Q(a).value() == x, "value", "");
    static_assert(std::is_same<decltype(a + b), Q>::value && std::is_same<decltype(a * b), Q>::value, "same tag stays");
    static_assert(std::is_same<decltype(a * t), tagged_quantity<multiply<LenTag, TimeTag>, Y>>::value && std::is_same<decltype(a / t), tagged_quantity<divide<LenTag, TimeTag>, Y>>::value, "tags combine");
    VP_CHECK(c, (a + b).value() == x + y && (a - b).value() == x - y && (a * b).value() == x * y, "arith", "");
    VP_CHECK(c, (a + y).value() == x + y && (y + a).value() == y + x && (a - y).value() == x - y && (y - a).value() == y - x && (a * y).value() == x * y && (y * a).value() == x * y, "arith-value", "");
    VP_CHECK(c, (a * t).value() == x * y && (a + t).value() == x + y && (a - t).value() == x - y, "arith-tags", "");
    if (y != Y(0)) VP_CHECK(c, (a / b).value() == x / y && (a / y).value() == x / y && (x / b).value() == x / y && (a / t).value() == x / y, "divide", "");
    VP_CHECK(c, (-a).value() == -x && (+a).value() == x, "sign", "");
    Q s = a; s += b; VP_CHECK(c, s.value() == x + y, "plus-assign", ""); s = a; s -= b; VP_CHECK(c, s.value() == x - y, "minus-assign", "");
    s = a; s *= b; VP_CHECK(c, s.value() == x * y, "times-assign", ""); s = a; s += y; VP_CHECK(c, s.value() == x + y, "plus-assign-value", "");
    s = a; s -= y; VP_CHECK(c, s.value() == x - y, "minus-assign-value", ""); s = a; s *= y; VP_CHECK(c, s.value() == x * y, "times-assign-value", "");
    if (y != Y(0)) { s = a; s /= b; VP_CHECK(c, s.value() == x / y, "divide-assign", ""); s = a; s /= y; VP_CHECK(c, s.value() == x / y, "divide-assign-value", ""); }
    VP_CHECK(c, (a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "order", "");
    VP_CHECK(c, (a == y) == (x == y) && (a != y) == (x != y) && (a < y) == (x < y) && (a <= y) == (x <= y) && (a > y) == (x > y) && (a >= y) == (x >= y), "order-value", "");
    VP_CHECK(c, (x == b) == (x == y) && (x != b) == (x != y) && (x < b) == (x < y) && (x <= b) == (x <= y) && (x > b) == (x > y) && (x >= b) == (x >= y), "order-left", "");
    VP_CHECK(c, static_cast<bool>(a) == (x != Y(0)), "bool", "");
    Y v = y; Q w = a; w.swap(v); VP_CHECK(c, w.value() == y && v == x, "swap-value", ""); Q u = b, z = a; u.swap(z); VP_CHECK(c, u.value() == x && z.value() == y, "swap", "");
    s = y; VP_CHECK(c, s.value() == y, "assign-value", "");
    tagged_quantity<LenTag, double> d = a; VP_CHECK(c, d.value() == (double)x, "convert", ""); d = b; VP_CHECK(c, d.value() == (double)y, "convert-assign", "");
}
VP_ASPECT(tagged_quantities, 60000, 300000, "two values were combined") {
    if (c.chance(1, 2)) tagged<double>(c, c.chance(1, 3) ? (double)c.range(-3, 3) : c.sreal(1e6), c.chance(1, 3) ? (double)c.range(-3, 3) : c.sreal(1e6));
    else tagged<int>(c, (int)c.range(-20000, 20000), (int)c.around(20000));
}
VP_ASPECT(tagged_functions, 36000, 144000, "the value is positive") {
    typedef tagged_quantity<LenTag, double> Q; double x = c.sreal(100.0), y = c.sreal(3.0); Q a(x), b(y), p(std::fabs(x)); VP_NOTE(c, x << " " << y);
    if (x > 0) c.nontrivial();
    VP_CHECK(c, geometrix::abs(a).value() == std::fabs(x) && geometrix::sqrt(p).value() == std::sqrt(std::fabs(x)) && geometrix::sin(a).value() == std::sin(x) && geometrix::cos(a).value() == std::cos(x) && geometrix::tan(a).value() == std::tan(x) && geometrix::atan(a).value() == std::atan(x), "trig", "");
    VP_CHECK(c, geometrix::floor(a).value() == std::floor(x) && geometrix::ceil(a).value() == std::ceil(x) && geometrix::exp(b).value() == std::exp(y), "round", "");
    Q u(x / 100); VP_CHECK(c, geometrix::asin(u).value() == std::asin(x / 100) && geometrix::acos(u).value() == std::acos(x / 100), "inverse-trig", "");
    if (x != 0) VP_CHECK(c, geometrix::log(p).value() == std::log(std::fabs(x)) && geometrix::log10(p).value() == std::log10(std::fabs(x)), "log", "");
    VP_CHECK(c, geometrix::atan2(a, b).value() == std::atan2(x, y) && geometrix::pow(p, b).value() == std::pow(std::fabs(x), y), "binary", "");
}

GEOMETRIX_PRIVATE_ALLOCATOR(my_alloc);
VP_ASPECT(allocators, 18000, 72000, "the history grows and shrinks the containers") {
    std::vector<std::string, my_alloc<std::string>> v; std::vector<std::string> mv;
    std::map<int, std::string, std::less<int>, my_alloc<std::pair<const int, std::string>>> m; std::map<int, std::string> mm;
    std::list<int, my_alloc<int>> l; std::list<int> ml;
    int n = (int)c.range(1, 40); bool grew = false, shrank = false;
    for (int i = 0; i < n; ++i) {
        int k = (int)c.range(0, 15); std::string s(c.range(0, 40), (char)('a' + k));
        switch (c.draw(8)) {
        case 0: case 1: v.push_back(s); mv.push_back(s); grew = true; break;
        case 2: if (!mv.empty()) { auto j = c.draw(mv.size()); v.erase(v.begin() + j); mv.erase(mv.begin() + j); shrank = true; } break;
        case 3: m[k] = s; mm[k] = s; break;
        case 4: m.erase(k); mm.erase(k); break;
        case 5: l.push_front(k); ml.push_front(k); break;
        case 6: { auto w = v; v = std::move(w); auto m2 = m; m.swap(m2); auto l2 = l; l = l2; break; }
        default: v.resize(k); mv.resize(k); l.remove(k); ml.remove(k); break;
        }
        VP_CHECK(c, std::equal(v.begin(), v.end(), mv.begin()) && v.size() == mv.size() && m.size() == mm.size() && std::equal(l.begin(), l.end(), ml.begin()) && l.size() == ml.size(), "contents", "after step " << i);
        for (auto& e : mm) VP_CHECK(c, m.count(e.first) && m[e.first] == e.second, "map", e.first);
    }
    if (grew && shrank) c.nontrivial();
    my_alloc<int> a; my_alloc<double> b(a); my_alloc<int> a2(a);
    VP_CHECK(c, a == a2 && !(a != a2) && a == b, "equality", "");
    VP_CHECK(c, a.max_size() >= 1000000, "max-size", "");
    int x = 5; VP_CHECK(c, a.address(x) == &x, "address", "");
}

VP_ASPECT(generators, 24000, 96000, "more than one index to choose from") {
    std::size_t n = (std::size_t)c.range(1, c.chance(1, 2) ? 4 : 200); unsigned long seed = (unsigned long)c.range(0, 100000);
    VP_NOTE(c, "n=" << n << " seed=" << seed);
    if (n > 1) c.nontrivial();
    random_index_generator<boost::mt19937> g(n, seed), g2(n, boost::mt19937(seed));
    std::set<std::size_t> seen; std::vector<std::size_t> first;
    int draws = n <= 4 ? 200 : 50;
    for (int i = 0; i < draws; ++i) { std::size_t k = g(); if (first.size() < 20) first.push_back(k); seen.insert(k); VP_CHECK(c, k < n, "index-range", k << " of " << n); VP_CHECK(c, g2() == k, "index-engine", ""); }
    if (n <= 4) VP_CHECK(c, seen.size() == n, "index-coverage", seen.size() << " of " << n);
    g.seed(seed); for (std::size_t k : first) VP_CHECK(c, g() == k, "index-reseed", "");
    std::vector<int> r; for (std::size_t i = 0; i < n; ++i) r.push_back((int)i);
    const std::vector<int>& cr = r;
    for (int i = 0; i < 20; ++i) { auto it = random_element(r, g); auto ci = random_element(cr, g); VP_CHECK(c, ci >= cr.begin() && ci < cr.end(), "const-element", ci - cr.begin()); VP_CHECK(c, it >= r.begin() && it < r.end(), "element", it - r.begin()); }
    if (n > 1 && n <= 4) { std::set<int> hit, chit; for (int i = 0; i < 200; ++i) { hit.insert(*random_element(r, g)); chit.insert(*random_element(cr, g)); } VP_CHECK(c, hit.size() == n && chit.size() == n, "element-coverage", hit.size() << " and " << chit.size() << " of " << n << " elements in 200 draws"); }
    partition_policies::random_partition_selector_policy<> pol((boost::mt19937(seed)));
    auto it = pol(r); VP_CHECK(c, it >= r.begin() && it < r.end(), "selector", it - r.begin());
    double mx = std::fabs(c.sreal(1000.0)) + 1e-6; random_real_generator<> rg(mx, seed); double f0 = rg();
    for (int i = 0; i < 20; ++i) { double d = i ? rg() : f0; VP_CHECK(c, d >= 0 && d < mx, "real-range", d << " of " << mx); }
    rg.seed(seed); VP_CHECK(c, rg() == f0, "real-reseed", "");
    random_integer_generator<boost::mt19937> ig(seed); std::size_t N = (std::size_t)c.range(1, 1000), i0 = ig(N);
    for (int i = 0; i < 20; ++i) { std::size_t d = i ? ig(N) : i0; VP_CHECK(c, d < N, "integer-range", d << " of " << N); }
    ig.seed(seed); VP_CHECK(c, ig(N) == i0, "integer-reseed", "");
    int s0 = (int)c.around(100); sequence_generator<int> sg(s0); for (int i = 0; i < 10; ++i) VP_CHECK(c, sg() == s0 + i, "sequence", "");
}
VP_ASPECT(colours, 36000, 200000, "the colour is not grey") {
    double h = c.chance(1, 4) ? (double)c.range(0, 23) / 24 : c.real(0.0, 0.999), s = c.chance(1, 5) ? 0.0 : c.real(0.0, 1.0), v = c.chance(1, 6) ? 1.0 : c.real(0.0, 1.0);
    VP_NOTE(c, "hsv " << h << " " << s << " " << v); if (s > 0.01 && v > 0.01) c.nontrivial();
    argb_tuple t = hsv2rgb((float)h, (float)s, (float)v); int r = std::get<argb::Red>(t), g = std::get<argb::Green>(t), b = std::get<argb::Blue>(t);
    // f(n) = v - v s max(0, min(k, 4 - k, 1)), k = (n + 6h) mod 6
    auto f = [&](double n) { double k = std::fmod(n + 6 * h, 6.0); return v - v * s * std::max(0.0, std::min(std::min(k, 4 - k), 1.0)); };
    VP_CHECK(c, std::get<argb::Alpha>(t) == 255, "alpha", "");
    VP_CHECK(c, std::fabs(r - (255 * f(5) - 0.5)) <= 0.51 && std::fabs(g - (255 * f(3) - 0.5)) <= 0.51 && std::fabs(b - (255 * f(1) - 0.5)) <= 0.51, "rgb", r << " " << g << " " << b << " expected " << 255 * f(5) << " " << 255 * f(3) << " " << 255 * f(1));
    if (c.chance(1, 20)) {
        std::size_t n = (std::size_t)c.range(0, 40); auto cs = generate_colors(n, s, v); VP_CHECK(c, cs.size() == n, "count", cs.size());
        int top = (int)(255 * v);
        for (auto& e : cs) { int m = std::max(std::get<1>(e), std::max(std::get<2>(e), std::get<3>(e))); VP_CHECK(c, std::get<0>(e) == 255 && std::abs(m - top) <= 1, "palette", m << " expected " << top); }
        VP_CHECK(c, generate_colors(n, s, v) == cs, "reproducible", "");
    }
}
template <std::size_t... N> static std::vector<std::size_t> list_of(geometrix::index_sequence<N...>) { return {N...}; }
template <std::size_t... K> static std::vector<std::vector<std::size_t>> table(std::index_sequence<K...>) { return {list_of(geometrix::make_index_sequence<K>())...}; }
template <int... N> static std::vector<int> ints(geometrix::integer_sequence<int, N...>) { return {N...}; }
VP_ASPECT(index_sequences, 500, 2000, "a length of at least eight") {
    static const std::vector<std::vector<std::size_t>> t = table(std::make_index_sequence<160>());
    std::size_t n = (std::size_t)c.range(0, 159); if (n >= 8) c.nontrivial(); VP_NOTE(c, "n=" << n);
    VP_CHECK(c, t[n].size() == n, "length", t[n].size()); for (std::size_t i = 0; i < n; ++i) VP_CHECK(c, t[n][i] == i, "element", t[n][i]);
    VP_CHECK(c, ints(geometrix::make_integer_sequence<int, 11>()).back() == 10 && (geometrix::make_index_sequence<37>::size()) == 37 && (geometrix::index_sequence_for<int, char, long>::size()) == 3, "typed", "");
}

#ifndef VP_NO_DETAIL
// ---- scope timers: running statistics, counts per scope, and the written report
VP_ASPECT(running_statistics, 48000, 200000, "two or more different durations") {
    geometrix::scope_timer_detail::running_stat<std::uint64_t> s; std::vector<std::uint64_t> m; int steps = (int)c.range(1, 40); bool nt = false;
    std::uint64_t top = c.pick<std::uint64_t>({3, 1000, 1000000000ULL, 100000000000ULL});
    for (int i = 0; i < steps; ++i) {
        if (c.chance(1, 16)) { s.clear(); m.clear(); VP_NOTE(c, "clear"); }
        else { std::uint64_t x = c.draw(top + 1); s.push(x); m.push_back(x); VP_NOTE(c, "push " << x); }
        long double sum = 0, var = 0; for (auto x : m) sum += x; long double mean = m.empty() ? 0 : sum / m.size(); for (auto x : m) var += (x - mean) * (x - mean); var = m.size() > 1 ? var / (m.size() - 1) : 0; if (var > 0) nt = true;
        VP_CHECK(c, s.counts() == m.size(), "stat-counts", s.counts() << " expected " << m.size());
        if (!m.empty()) VP_CHECK(c, (long double)s.sum() == sum, "stat-sum", s.sum() << " expected " << (double)sum);
        VP_CHECK(c, std::fabs(s.mean() - (double)mean) <= 1e-9 * ((double)mean + 1e-30), "stat-mean", s.mean() << " expected " << (double)mean);
        VP_CHECK(c, std::fabs(s.variance() - (double)var) <= 1e-8 * ((double)var + 1e-12 * (double)(mean * mean)) && std::fabs(s.standard_deviation() - std::sqrt((double)var)) <= 1e-6 * (std::sqrt((double)var) + 1e-6 * (double)mean), "stat-variance", s.variance() << " expected " << (double)var);
    }
    if (nt) c.nontrivial();
}
static void timed(Case& c, std::map<std::string, std::uint64_t>& want, int depth) {
    static const char* names[] = {"alpha", "beta", "gamma,quoted"}; const char* n = names[c.draw(3)]; GEOMETRIX_MEASURE_SCOPE_TIME(n); ++want[n];
    int kids = depth < 3 ? (int)c.range(0, 2) : 0; for (int i = 0; i < kids; ++i) timed(c, want, depth + 1);
}
VP_ASPECT(scope_timers, 9000, 36000, "nested scopes of at least two names") {
    typedef geometrix::scope_timer_detail::call_map CM; CM& cm = CM::instance(); cm.clear(); struct Clear { ~Clear() { CM::instance().clear(); } } clear; // an empty map is not written at exit
    std::map<std::string, std::uint64_t> want; int n = (int)c.range(1, 5);
    auto check = [&] { VP_CHECK(c, cm.size() == want.size(), "timer-names", cm.size() << " names, expected " << want.size()); for (auto& w : want) VP_CHECK(c, cm.count(w.first) && cm[w.first].counts() == w.second, "timer-counts", w.first << " counted " << cm[w.first].counts() << " times, expected " << w.second); };
    for (int i = 0; i < n; ++i) { timed(c, want, 0); check(); }
    if (c.chance(1, 4)) { // the time recorded is not less than what was spent inside
        typedef std::chrono::high_resolution_clock Ck; auto before = cm.count("spent") ? cm["spent"].sum() : 0; std::uint64_t in = 0; { GEOMETRIX_MEASURE_SCOPE_TIME("spent"); auto a = Ck::now(), b = a; std::uint64_t ns = (std::uint64_t)c.range(1000, 50000); while ((in = (std::uint64_t)std::chrono::duration_cast<std::chrono::nanoseconds>(b - a).count()) < ns) b = Ck::now(); } ++want["spent"]; check(); VP_CHECK(c, cm["spent"].sum() - before >= in, "timer-elapsed", "a scope of at least " << in << " ns is recorded as " << cm["spent"].sum() - before); }
    if (want.size() > 1) c.nontrivial();
    if (c.chance(1, 10)) { // the report has one row per name, written into a directory of its own
        char d[] = "/tmp/vp_timer_XXXXXX"; char cwd[4096]; if (!mkdtemp(d) || !getcwd(cwd, sizeof cwd) || chdir(d)) return;
        cm.write(); std::vector<std::string> files; if (DIR* q = opendir(".")) { while (dirent* e = readdir(q)) if (e->d_name[0] != '.') files.push_back(e->d_name); closedir(q); }
        std::vector<std::string> rows; if (files.size() == 1) { std::ifstream in(files[0]); std::string l; while (std::getline(in, l)) rows.push_back(l); }
        for (auto& f : files) unlink(f.c_str()); int r = chdir(cwd); (void)r; rmdir(d);
        VP_CHECK(c, files.size() == 1, "report-file", files.size() << " files"); VP_CHECK(c, rows.size() == want.size() + 1, "report-rows", rows.size() << " rows for " << want.size() << " names");
        std::size_t k = 1; for (auto& w : want) { std::string p = "\"" + w.first + "\"," + std::to_string(w.second) + ","; VP_CHECK(c, rows[k].compare(0, p.size(), p) == 0, "report-row", rows[k] << " expected to start " << p); double total = -1, mean = -1, sd = -1; VP_CHECK(c, sscanf(rows[k].c_str() + p.size(), "%lf,%lf,%lf", &total, &mean, &sd) == 3 && total >= 0 && sd >= 0 && std::fabs(mean * w.second - total) <= 1e-4 * (total + 1e-12), "report-times", rows[k]); ++k; }
    }
}
#endif
