// P03: distance / closest features between two polylines or two polygon borders equals the minimum over all edge pairs.
#include "gl.hpp"
#include <geometrix/algorithm/distance/polygon_polygon_distance.hpp>
#include <geometrix/algorithm/distance/polygon_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_distance.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_closest_point.hpp>
using namespace geometrix; using namespace gl; using vp::Case;
typedef long double LD;
static double tol(I m, double s) { return 1e-10 * (double)(m * m + 1) * s * s; }

static Poly gen(Case& c, I m, bool ring) {
    switch (c.draw(4)) {
    case 0: return ring ? gx::gen_simple(c, m, 12) : gx::gen_any_chain(c, m, 12);
    case 1: { // many vertices: a rectilinear wave / star, far more than the size where the search subdivides
        int k = (int)c.range(6, 40); Poly p; I x = c.around(m), y = c.around(m); int style = (int)c.draw(3);
        for (int i = 0; i < k; ++i) { if (style == 0) p.push_back(V(x + i, y + c.range(0, 3))); else if (style == 1) p.push_back(V(x + c.range(0, 3), y + i)); else { x += c.around(2); y += c.around(2); V v(x, y); if (p.empty() || p.back() != v) p.push_back(v); } }
        if (p.size() < 2) p.push_back(p[0] + V(1, 1)); if (ring && p.size() < 3) p.push_back(p[0] + V(0, 1)); return p; }
    case 2: { Poly p = gx::gen_convex(c, m, 24); return gx::rotate_start(c, p); }
    default: { Poly p = ring ? gx::with_collinear(c, gx::gen_2opt(c, m, 12)) : gx::gen_chain(c, m, 16); return ring ? gx::rotate_start(c, p) : p; }
    }
}

template <bool Ring> static void run(Case& c) {
    I m = c.pick<I>({5, 10, 30, 100}); double sc = c.pick<double>({1.0, 0.25, 0.1}); Poly a = gen(c, m, Ring), b = gen(c, m, Ring);
    b = gx::translate(b, c.pick<V>({V(0, 0), V(2 * m, 0), V(-3 * m, m), V(m / 2, -2 * m), V(5 * m, 5 * m)}));
    if (c.chance(1, 6)) { // place b's first vertex right next to a's first vertex: the seeds of the search
        V d = a[0] - b[0] + V(1, 0); b = gx::translate(b, d); }
    VP_NOTE(c, (Ring ? "polygons " : "polylines ") << a << " and " << b << " scale " << sc);
    I ext = 1; for (auto& p : {a, b}) for (auto v : p) ext = std::max<I>(ext, std::max<I>(std::llabs(v.x), std::llabs(v.y)));
    std::size_t na = a.size(), nb = b.size(), ea = Ring ? na : na - 1, eb = Ring ? nb : nb - 1;
    LD best = 1e300L; bool closing = false; int winners = 0;
    for (std::size_t i = 0; i < ea; ++i) for (std::size_t j = 0; j < eb; ++j) {
        LD d = gx::d2_seg_seg(a[i], a[(i + 1) % na], b[j], b[(j + 1) % nb]).ld(); bool cl = i + 1 == na || j + 1 == nb;
        if (d < best) { best = d; closing = cl; winners = 1; } else if (d == best) { closing = closing && cl; ++winners; } }
    bool big = na >= 6 && nb >= 6; c.label_if(big, "both >= 6 vertices"); c.label_if(na >= 16 && nb >= 16, "both >= 16 vertices"); c.label_if(best == 0, "touching"); c.label_if(Ring && closing, "only the closing edge is nearest");
    if (big && best > 0) c.nontrivial();
    LD w = best * sc * sc; double tl = tol(2 * ext, sc); double d2, d1, r; std::size_t i1 = 99999, i2 = 99999; double s = -9, t = -9; P2 c1(1e9, 1e9), c2(-1e9, 1e9);
    const char* tag; 
    if (Ring) { G2 x = Pg(a, sc), y = Pg(b, sc); tag = "polygon_polygon"; d2 = polygon_polygon_distance_sqrd(x, y, cmp()); d1 = polygon_polygon_distance(x, y, cmp()); r = polygon_polygon_closest_point(x, y, i1, i2, s, t, c1, c2, cmp()); }
    else { L2 x = Pl(a, sc), y = Pl(b, sc); tag = "polyline_polyline"; d2 = polyline_polyline_distance_sqrd(x, y, cmp()); d1 = polyline_polyline_distance(x, y, cmp()); r = polyline_polyline_closest_point(x, y, i1, i2, s, t, c1, c2, cmp()); }
    VP_CHECK(c, std::fabs(d2 - (double)w) <= tl, std::string(tag) + "_distance_sqrd", "got " << d2 << " expected " << (double)w);
    VP_CHECK(c, d1 >= 0 && std::fabs(d1 * d1 - (double)w) <= 2 * tl, std::string(tag) + "_distance", "got " << d1 << " expected " << std::sqrt((double)w));
    VP_CHECK(c, std::fabs(r - (double)w) <= tl, std::string(tag) + "_closest_point", "squared distance " << r << " expected " << (double)w);
    VP_CHECK(c, i1 < ea && i2 < eb, std::string(tag) + "_closest_point-index", "edge indices " << i1 << "," << i2);
    VP_CHECK(c, s >= 0 && s <= 1 && t >= 0 && t <= 1, std::string(tag) + "_closest_point-param", "s=" << s << " t=" << t);
    P2 p0 = P(a[i1], sc), p1 = P(a[(i1 + 1) % na], sc), q0 = P(b[i2], sc), q1 = P(b[(i2 + 1) % nb], sc), e1(p0[0] + s * (p1[0] - p0[0]), p0[1] + s * (p1[1] - p0[1])), e2(q0[0] + t * (q1[0] - q0[0]), q0[1] + t * (q1[1] - q0[1]));
    double q = std::sqrt(tl) * 1e-3;
    VP_CHECK(c, dist(e1, c1) <= q && dist(e2, c2) <= q, std::string(tag) + "_closest_point-witness", "points " << sh(c1) << sh(c2) << " but edges " << i1 << "," << i2 << " at s=" << s << " t=" << t << " give " << sh(e1) << sh(e2));
    VP_CHECK(c, std::fabs(dist(c1, c2) * dist(c1, c2) - r) <= tl, std::string(tag) + "_closest_point-realise", "points " << dist(c1, c2) << " apart, reported squared distance " << r);
}
VP_ASPECT(polygon_pairs, 160000, 6000000, "pairs of simple or wavy closed rings of 3..80 vertices; non-trivial: both have >= 6 vertices (subdividing search) and are disjoint") { run<true>(c); }
VP_ASPECT(polyline_pairs, 160000, 6000000, "pairs of chains of 2..80 vertices; non-trivial: both have >= 6 vertices (subdividing search) and are disjoint") { run<false>(c); }
