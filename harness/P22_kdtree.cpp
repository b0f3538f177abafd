// P22: kd-tree range queries and median partitioning against brute force.
#include "gl.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/kd_tree.hpp>
#include <geometrix/algorithm/median_partitioning_strategy.hpp>
#include <array>
using namespace geometrix; using vp::Case; typedef int64_t I;
template <std::size_t D> using A = std::array<I, D>;
template <std::size_t D> static std::string show(const A<D>& a) { std::string s = "("; for (std::size_t k = 0; k < D; ++k) s += (k ? "," : "") + std::to_string(a[k]); return s + ")"; }
template <typename Pt, std::size_t D> static Pt mk(const A<D>& a, double s) { Pt p; for (std::size_t k = 0; k < D; ++k) p[k] = a[k] * s; return p; }
template <std::size_t D> static std::vector<A<D>> points(Case& c, I m, int most) { int n = (int)c.range(1, most); std::vector<A<D>> v; int style = (int)c.draw(4); for (int i = 0; i < n; ++i) { A<D> a; for (std::size_t k = 0; k < D; ++k) a[k] = style == 0 && k == 0 ? 1 : c.around(m); if (!v.empty() && c.chance(1, 6)) a = v[(std::size_t)c.draw(v.size())]; v.push_back(a); } if (style == 1) std::sort(v.begin(), v.end()); if (style == 2) std::sort(v.rbegin(), v.rend()); return v; }
template <typename Pt, std::size_t D> static void query(Case& c) {
    I m = c.pick<I>({2, 4, 10, 100}); double s = c.pick<double>({1, 0.5, 1e-3, 1000}); auto v = points<D>(c, m, c.chance(1, 100) ? 1500 : c.chance(1, 4) ? 60 : 12); std::ostringstream os; for (auto& a : v) os << show<D>(a); VP_NOTE(c, "points " << os.str() << " scale " << s); std::vector<Pt> pts; for (auto& a : v) pts.push_back(mk<Pt, D>(a, s)); absolute_tolerance_comparison_policy<double> cmp(1e-10); kd_tree<Pt> tree(pts, cmp, median_partitioning_strategy());
    for (int q = 0; q < 3; ++q) { A<D> lo, hi; for (std::size_t k = 0; k < D; ++k) { I a = c.around(m + 1), b = c.around(m + 1); if (c.chance(1, 4)) a = v[(std::size_t)c.draw(v.size())][k]; if (c.chance(1, 4)) b = v[(std::size_t)c.draw(v.size())][k]; lo[k] = std::min(a, b); hi[k] = std::max(a, b); } VP_NOTE(c, " range " << show<D>(lo) << show<D>(hi)); std::map<A<D>, int> want, got; std::size_t nw = 0; bool border = false; for (auto& a : v) { bool in = true, bd = false; for (std::size_t k = 0; k < D; ++k) { in = in && lo[k] <= a[k] && a[k] <= hi[k]; bd = bd || a[k] == lo[k] || a[k] == hi[k]; } if (in) { ++want[a]; ++nw; border = border || bd; } }
        if (nw && nw < v.size() && border) c.nontrivial(); tree.search(axis_aligned_bounding_box<Pt>(mk<Pt, D>(lo, s), mk<Pt, D>(hi, s)), [&](const Pt& p) { A<D> a; for (std::size_t k = 0; k < D; ++k) a[k] = (I)std::llround(p[k] / s); ++got[a]; }, cmp);
        for (auto& e : want) VP_CHECK(c, got[e.first] >= e.second, "kd-missed", "point " << show<D>(e.first) << " in the range reported " << got[e.first] << " times instead of " << e.second); for (auto& e : got) VP_CHECK(c, e.second <= (want.count(e.first) ? want[e.first] : 0), "kd-extra", "point " << show<D>(e.first) << " reported " << e.second << " times instead of " << (want.count(e.first) ? want[e.first] : 0)); }
}
VP_ASPECT(query2, 120000, 2500000, "2D point sets with repeated points and repeated coordinates, three closed ranges each, often through points; non-trivial: some but not all points reported, one on the border of the range") { query<point_double_2d, 2>(c); }
VP_ASPECT(query3, 120000, 2500000, "as query2 in 3D") { query<point_double_3d, 3>(c); }
VP_ASPECT(median, 300000, 5000000, "sequences with repeated coordinates split on either dimension; non-trivial: the median coordinate is repeated") {
    I m = c.pick<I>({2, 1, 5, 100}); auto v = points<3>(c, m, c.chance(1, 100) ? 600 : 20); std::vector<point_double_3d> p; for (auto& a : v) p.push_back(mk<point_double_3d, 3>(a, 1)); std::ostringstream os; for (auto& a : v) os << show<3>(a); std::size_t d = (std::size_t)c.draw(3); VP_NOTE(c, "points " << os.str() << " dimension " << d); absolute_tolerance_comparison_policy<double> cmp(1e-10); median_partitioning_strategy st; std::size_t k = d == 0 ? st.partition<0>(p, cmp) : d == 1 ? st.partition<1>(p, cmp) : st.partition<2>(p, cmp);
    VP_CHECK(c, k < v.size() && k >= v.size() / 2, "median-index", "index " << k << " of " << v.size()); std::vector<A<3>> w; for (auto& q : p) w.push_back(A<3>{{(I)q[0], (I)q[1], (I)q[2]}}); for (std::size_t i = 0; i < w.size(); ++i) { VP_CHECK(c, i < k ? w[i][d] <= w[k][d] : w[i][d] >= w[k][d], "median-order", "element " << i << " is " << show<3>(w[i]) << " with the median " << k << " at " << show<3>(w[k])); if (i != k && w[i][d] == w[k][d]) c.nontrivial(); } auto x = v, y = w; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); VP_CHECK(c, x == y, "median-permutation", "the points changed");
}
