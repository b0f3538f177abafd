// gl.hpp - conversions between the integer-grid model (gx.hpp) and library types.
#ifndef VP_GL_HPP
#define VP_GL_HPP
#include "gx.hpp"
#include <geometrix/primitive/point.hpp>
#include <geometrix/tensor/vector.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/numeric/constants.hpp>
#include <geometrix/numeric/number_comparison_policy.hpp>

namespace gl {
using gx::I; using gx::V; using gx::Poly; using gx::Q; typedef long double LD;
typedef geometrix::point_double_2d P2;
typedef geometrix::vector_double_2d V2;
typedef geometrix::point_double_3d P3;
typedef geometrix::vector_double_3d V3;
typedef geometrix::segment<P2> S2;
typedef geometrix::polygon<P2> G2;
typedef geometrix::polyline<P2> L2;
inline P2 P(V v, double s = 1) { return P2((double)v.x * s, (double)v.y * s); }
inline V2 Vec(V v, double s = 1) { return V2((double)v.x * s, (double)v.y * s); }
inline S2 Seg(V a, V b, double s = 1) { return S2(P(a, s), P(b, s)); }
inline G2 Pg(const Poly& p, double s = 1) { G2 r; for (auto v : p) r.push_back(P(v, s)); return r; }
inline L2 Pl(const Poly& p, double s = 1) { L2 r; for (auto v : p) r.push_back(P(v, s)); return r; }
inline geometrix::absolute_tolerance_comparison_policy<double> cmp(double eps = 1e-10) { return geometrix::absolute_tolerance_comparison_policy<double>(eps); }
inline double X(const P2& p) { return p[0]; }
inline double Y(const P2& p) { return p[1]; }
struct Sh { const P2& p; };
inline std::ostream& operator<<(std::ostream& os, Sh s) { return os << std::setprecision(17) << "(" << s.p[0] << "," << s.p[1] << ")"; }
inline Sh sh(const P2& p) { return Sh{p}; }
inline double dist(const P2& a, const P2& b) { return std::hypot(a[0] - b[0], a[1] - b[1]); }
//! scale of the lattice; inexact scales only on small lattices, where rounding stays far below the tolerance
inline double pick_scale(vp::Case& c, I m) { return m <= 20 ? c.pick<double>({1.0, 0.5, 0.1, 1.0 / 3.0, 7.0}) : c.pick<double>({1.0, 0.5, 0.125, 8.0}); }
//! distance of a library point to a grid segment, in long double
inline double pd(const P2& p, V a, V b, double s = 1) {
    typedef long double L; L ax = a.x * (L)s, ay = a.y * (L)s, ux = (b.x - a.x) * (L)s, uy = (b.y - a.y) * (L)s, l2 = ux * ux + uy * uy;
    L t = l2 > 0 ? ((p[0] - ax) * ux + (p[1] - ay) * uy) / l2 : 0; if (t < 0) t = 0; if (t > 1) t = 1;
    L dx = p[0] - (ax + t * ux), dy = p[1] - (ay + t * uy); return (double)std::sqrt((double)(dx * dx + dy * dy));
}
}
#endif
