// P32: Cartesian, polar and neutral reference frames.
#include "vp.hpp"
#include <geometrix/primitive/point.hpp>
#include <geometrix/utility/array.hpp>
#include <geometrix/tensor/vector.hpp>
#include <geometrix/space/cartesian_reference_frame.hpp>
#include <geometrix/space/polar_reference_frame.hpp>
#include <geometrix/space/cartesian_polar_transformation.hpp>
#include <geometrix/space/polar_cartesian_transformation.hpp>
#include <geometrix/space/cartesian_access_traits.hpp>
#include <geometrix/space/polar_access_traits.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <cmath>
using namespace geometrix;
using vp::Case;
typedef point<double, 2> P2; typedef point<double, 3> P3; typedef vector<double, 2> V2; typedef vector<double, 3> V3;
template <class T> using C2 = reference_frame_adaptor<T, cartesian_reference_frame_2d>;
template <class T> using L2 = reference_frame_adaptor<T, polar_reference_frame_2d>;
template <class T> using C3 = reference_frame_adaptor<T, cartesian_reference_frame_3d>;
template <class T> using L3 = reference_frame_adaptor<T, polar_reference_frame_3d>;
template <class T> using N2 = reference_frame_adaptor<T, neutral_reference_frame_2d>;
static const double PI = 3.14159265358979323846;
static double coord(Case& c) {
    switch (c.draw(5)) { case 0: return (double)c.range(-2, 2); case 1: return (double)c.around(1000); case 2: return c.sreal(1.0); case 3: return c.sreal(1e6); default: return c.sreal(1e-3); }
}
static double angdiff(double a, double b) { return std::fabs(std::remainder(a - b, 2 * PI)); }

template <class T> static void planar(Case& c) {
    double x = coord(c), y = coord(c), r = std::sqrt(x * x + y * y), s = r + 1e-300;
    VP_NOTE(c, "(" << x << "," << y << ")");
    C2<T> a(T(x, y));
    L2<T> p(a);
    c.label_if(x < 0, "left"); c.label_if(y == 0 || x == 0, "on-axis");
    if (r > 0) c.nontrivial();
    VP_CHECK(c, std::fabs(get<0>(p) - r) <= 1e-12 * s, "radius", get<0>(p) << " expected " << r);
    if (r > 0) VP_CHECK(c, angdiff(get<1>(p), std::atan2(y, x)) <= 1e-12 && std::fabs(get<1>(p)) <= PI + 1e-12, "angle", get<1>(p));
    C2<T> b(p);
    VP_CHECK(c, std::fabs(get<0>(b) - x) <= 1e-12 * s && std::fabs(get<1>(b) - y) <= 1e-12 * s, "round-trip", get<0>(b) << "," << get<1>(b));
    C2<T> d(T(7, 7)); d = p; L2<T> q(T(7, 7)); q = a;
    VP_CHECK(c, get<0>(d) == get<0>(b) && get<1>(d) == get<1>(b) && get<0>(q) == get<0>(p) && get<1>(q) == get<1>(p), "assign", "");
    L2<T> same(p); C2<T> sameC(a);
    VP_CHECK(c, get<0>(same) == get<0>(p) && get<1>(same) == get<1>(p) && get<0>(sameC) == x && get<1>(sameC) == y, "copy", "");
    // a sequence without a frame is taken as it is
    T raw(x, y); L2<T> rp(raw); C2<T> rc(raw); N2<T> n(raw);
    VP_CHECK(c, get<0>(rp) == x && get<1>(rp) == y && get<0>(rc) == x && get<1>(rc) == y, "neutral", "");
    // frame aware access
    VP_CHECK(c, get_x(a).value() == x && get_y(a).value() == y && get_x(raw).value() == x && get_y(raw).value() == y, "xy", "");
    VP_CHECK(c, get_r(p).value() == get<0>(p) && get_theta(p).value() == get<1>(p), "r-theta", "");
    VP_CHECK(c, std::fabs(get_x(p).value() - x) <= 1e-12 * s && std::fabs(get_y(p).value() - y) <= 1e-12 * s, "xy-of-polar", get_x(p).value() << "," << get_y(p).value());
    VP_CHECK(c, std::fabs(get_r(a).value() - r) <= 1e-12 * s, "r-of-cartesian", get_r(a).value());
    if (r > 0) VP_CHECK(c, angdiff(get_theta(a).value(), std::atan2(y, x)) <= 1e-12, "theta-of-cartesian", get_theta(a).value());
    VP_CHECK(c, cartesian_access_traits<L2<T>>::template get_raw<0>(p) == get_x(p).value() && polar_access_traits<C2<T>>::template get_raw<1>(a) == get_theta(a).value(), "raw-access", "");
}
template <class T> static void polar_first(Case& c) {
    double r = std::fabs(coord(c)), t = c.chance(1, 4) ? (double)c.range(-8, 8) * PI / 4 : c.sreal(10.0);
    VP_NOTE(c, "r=" << r << " theta=" << t);
    L2<T> p(T(r, t)); C2<T> a(p);
    VP_CHECK(c, std::fabs(get<0>(a) - r * std::cos(t)) <= 1e-12 * (r + 1e-300) && std::fabs(get<1>(a) - r * std::sin(t)) <= 1e-12 * (r + 1e-300), "cartesian", get<0>(a) << "," << get<1>(a));
    L2<T> q(a);
    VP_CHECK(c, std::fabs(get<0>(q) - r) <= 1e-12 * (r + 1e-300), "radius", get<0>(q));
    if (r > 0) { c.nontrivial(); VP_CHECK(c, angdiff(get<1>(q), t) <= 1e-12, "angle", get<1>(q)); }
}
template <class T> static void spatial(Case& c) {
    double x = coord(c), y = coord(c), z = coord(c), r = std::sqrt(x * x + y * y + z * z), h = std::sqrt(x * x + y * y), s = r + 1e-300;
    VP_NOTE(c, "(" << x << "," << y << "," << z << ")");
    C3<T> a(T(x, y, z)); L3<T> p(a);
    if (h > 0 && z != 0) c.nontrivial();
    VP_CHECK(c, std::fabs(get<0>(p) - r) <= 1e-12 * s, "radius", get<0>(p) << " expected " << r);
    if (h > 0) VP_CHECK(c, angdiff(get<1>(p), std::atan2(y, x)) <= 1e-12, "azimuth", get<1>(p));
    if (r > 0) VP_CHECK(c, std::fabs(get<2>(p) - std::atan2(h, z)) <= 1e-12 && get<2>(p) >= 0 && get<2>(p) <= PI + 1e-12, "inclination", get<2>(p) << " expected " << std::atan2(h, z));
    C3<T> b(p);
    VP_CHECK(c, std::fabs(get<0>(b) - x) <= 1e-12 * s && std::fabs(get<1>(b) - y) <= 1e-12 * s && std::fabs(get<2>(b) - z) <= 1e-12 * s, "round-trip", get<0>(b) << "," << get<1>(b) << "," << get<2>(b));
    C3<T> d(T(7, 7, 7)); d = p; L3<T> q(T(7, 7, 7)); q = a;
    VP_CHECK(c, get<0>(d) == get<0>(b) && get<2>(d) == get<2>(b) && get<1>(q) == get<1>(p) && get<2>(q) == get<2>(p), "assign", "");
    VP_CHECK(c, get_x(a).value() == x && get_y(a).value() == y && get_z(a).value() == z, "xyz", "");
    VP_CHECK(c, get_r(p).value() == get<0>(p) && get_theta(p).value() == get<1>(p) && get_phi(p).value() == get<2>(p), "r-theta-phi", "");
    VP_CHECK(c, std::fabs(get_z(p).value() - z) <= 1e-12 * s && std::fabs(get_x(p).value() - x) <= 1e-12 * s && std::fabs(get_y(p).value() - y) <= 1e-12 * s, "xyz-of-polar", get_z(p).value());
    VP_CHECK(c, std::fabs(get_r(a).value() - r) <= 1e-12 * s, "r-of-cartesian", "");
    if (h > 0) VP_CHECK(c, angdiff(get_theta(a).value(), std::atan2(y, x)) <= 1e-12 && std::fabs(get_phi(a).value() - std::atan2(h, z)) <= 1e-12, "angles-of-cartesian", get_phi(a).value());
    // spherical first
    double rr = std::fabs(coord(c)), t = c.sreal(PI), f = c.real(0.0, PI);
    L3<T> u(T(rr, t, f)); C3<T> w(u);
    VP_NOTE(c, "r=" << rr << " theta=" << t << " phi=" << f);
    VP_CHECK(c, std::fabs(get<2>(w) - rr * std::cos(f)) <= 1e-12 * (rr + 1e-300) && std::fabs(get<0>(w) - rr * std::sin(f) * std::cos(t)) <= 1e-12 * (rr + 1e-300) && std::fabs(get<1>(w) - rr * std::sin(f) * std::sin(t)) <= 1e-12 * (rr + 1e-300), "cartesian", get<0>(w) << "," << get<1>(w) << "," << get<2>(w));
}
VP_ASPECT(points_2d, 1200000, 4800000, "the point is not the origin") { planar<P2>(c); }
VP_ASPECT(vectors_2d, 800000, 3200000, "the vector is not null") { planar<V2>(c); }
VP_ASPECT(from_polar_2d, 800000, 3200000, "the radius is positive") { if (c.chance(1, 2)) polar_first<P2>(c); else polar_first<V2>(c); }
VP_ASPECT(points_3d, 1200000, 4800000, "off the z axis and off the xy plane") { spatial<P3>(c); }
VP_ASPECT(vectors_3d, 800000, 3200000, "off the z axis and off the xy plane") { spatial<V3>(c); }
