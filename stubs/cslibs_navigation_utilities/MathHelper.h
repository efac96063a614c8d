// Stand-in for cslibs_navigation_utilities (not installed here): the documented
// contracts of the helpers that path_planning uses.
#ifndef MATHHELPER_H_STANDIN
#define MATHHELPER_H_STANDIN
#include <cmath>
#include <utility>
#include <algorithm>
#include <vector>
#include <Eigen/Core>
#ifdef CLAMP_AT_ONCE
extern "C" double sx_clamp(double);
#endif
namespace MathHelper {
inline double AngleClamp(double a) {            // same direction, in [-pi,pi)
#ifdef CLAMP_AT_ONCE
    return sx_clamp(a);
#endif
    for (int i = 0; i < 64 && a >= M_PI; ++i) a -= 2 * M_PI;
    for (int i = 0; i < 64 && a < -M_PI; ++i) a += 2 * M_PI;
    return a;
}
inline double AngleDelta(double from, double to) { return AngleClamp(to - from); }
inline double Angle(const Eigen::Vector2d &v) { return std::atan2(v(1), v(0)); }
}
typedef std::pair<double, double> point2D;
// intersection of the segments ab and cd
inline bool segmentIntersection(const point2D &a, const point2D &b, const point2D &c, const point2D &d, point2D &out, double &s, double &t, double tol) {
    double rx = b.first - a.first, ry = b.second - a.second, qx = d.first - c.first, qy = d.second - c.second;
    double den = rx * qy - ry * qx;
    if (den == 0) return false;
    double wx = c.first - a.first, wy = c.second - a.second;
    s = (wx * qy - wy * qx) / den;
    t = (wx * ry - wy * rx) / den;
    if (s < -tol || s > 1 + tol || t < -tol || t > 1 + tol) return false;
    out = point2D(a.first + s * rx, a.second + s * ry);
    return true;
}
#endif
