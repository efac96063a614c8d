// Rounding (C01), points and poses (C02).
#include "sx.h"
#include <cslibs_path_planning/common/TmpMath.hpp>
#include <cslibs_path_planning/common/Point2d.h>
#include <cslibs_path_planning/common/Pose2d.h>
using namespace lib_path;
#ifndef E_LO
#define E_LO -2
#define E_HI 31
#endif
#ifndef EXP_MIN
#define EXP_MIN -1023
#endif

// C01, IEEE doubles by sign, exponent and all 2^52 fractions
#include <cstdint>
#include <cstring>
static double number(bool neg, int e, uint64_t frac) {
    uint64_t bits = ((uint64_t)neg << 63) | ((uint64_t)(e + 1023) << 52) | frac;
    double x;
    std::memcpy(&x, &bits, 8);
    return x;
}
static uint64_t fraction() { return ((uint64_t)(sx_u32("hi") & 0xfffff) << 32) | sx_u32("lo"); }
// nearest integer to the magnitude, ties away from zero
static int64_t nearest(int e, uint64_t frac) {
    if (e < -1) return 0;
    uint64_t m = frac | ((uint64_t)1 << 52);
    return (m + ((uint64_t)1 << (51 - e))) >> (52 - e);
}
extern "C" void h_round() {
    bool neg = sx_fork(sx_bool("negative"));
    int e = sx_conc(sx_int("exponent", E_LO, E_HI));
    uint64_t frac = fraction();
    int64_t n = nearest(e, frac);
    sx_assume(neg ? n <= 2147483648LL : n <= 2147483647LL);
    if (e == 31) sx_reach("largest");
    if (e == -2) sx_reach("below one half");
    sx_check(tmpmath::round(number(neg, e, frac)) == (neg ? -n : n), "rounding gives the nearest integer, ties away from zero");
}
// everything smaller than one quarter, denormal numbers and zeros included
extern "C" void h_round_small() {
    bool neg = sx_fork(sx_bool("negative"));
    int e = sx_conc(sx_int("exponent", EXP_MIN, -3));
    sx_check(tmpmath::round(number(neg, e, fraction())) == 0, "rounding gives the nearest integer, ties away from zero");
}
static_assert(tmpmath::round(2.5) == 3 && tmpmath::round(-2.5) == -3, "rounding works at compile time");
// C02
static bool near(double a, double b) { return sx_near(a, b, 1e-9); }
extern "C" void h_point_ops() {
    Point2d a(sx_real("ax", -100, 100), sx_real("ay", -100, 100)), b(sx_real("bx", -100, 100), sx_real("by", -100, 100));
    double f = sx_real("f", -50, 50);
    Point2d s = a + b, d = a - b, m = a * f, n = -a;
    sx_check(near(s.x, a.x + b.x) && near(s.y, a.y + b.y), "points add component-wise");
    sx_check(near(d.x, a.x - b.x) && near(d.y, a.y - b.y), "points subtract component-wise");
    sx_check(near(m.x, a.x * f) && near(m.y, a.y * f), "points scale component-wise");
    sx_check(n.x == -a.x && n.y == -a.y, "points negate component-wise");
    Point2d c = a, r = (c *= f);
    sx_check(near(c.x, a.x * f) && near(c.y, a.y * f) && near(r.x, c.x) && near(r.y, c.y), "scaling in place scales the point");
    if (f != 0) { Point2d q = a / f; sx_check(near(q.x * f, a.x) && near(q.y * f, a.y), "division undoes scaling"); }
    bool eq = a == b;
    if (a.x == b.x && a.y == b.y) { sx_reach("equal"); sx_check(eq && !(a != b), "points with equal coordinates are equal"); }
    else { sx_reach("different"); sx_check(!eq && a != b, "points with different coordinates differ"); }
    double l = a.length();
    sx_check(l >= 0 && near(l * l, a.x * a.x + a.y * a.y) && a.distance_to_origin() == l, "the length of a point is its Euclidean norm");
    Point2d o = a.ortho();
    sx_check(near(o.x * a.x + o.y * a.y, 0) && near(o.length(), l), "the orthogonal vector is orthogonal and as long");
    sx_check(near(o.x * a.y - o.y * a.x, l * l), "the orthogonal vector is turned clockwise");
    Pose2d p(a.x, a.y, f);
    Point2d fp(p);
    sx_check(fp.x == a.x && fp.y == a.y, "a pose converts to its position");
}
extern "C" void h_point_rotate() {
    Point2d a(sx_real("ax", -100, 100), sx_real("ay", -100, 100));
    double th = sx_angle("th");
    Point2d r = a.rotate(th), k = r.rotate(-th);
    sx_check(near(r.x * r.x + r.y * r.y, a.x * a.x + a.y * a.y), "rotation keeps the length");
    sx_check(near(r.x, std::cos(th) * a.x - std::sin(th) * a.y) && near(r.y, std::sin(th) * a.x + std::cos(th) * a.y), "rotation turns counter-clockwise by the angle");
    sx_check(near(k.x, a.x) && near(k.y, a.y), "rotating back gives the point");
    Point2d q = a.rotate(M_PI / 2);
    sx_check(near(q.x, -a.y) && near(q.y, a.x), "a quarter turn maps x to y");
    double rad = sx_real("radius", 0, 50);
    Point2d p = Point2d::from_polar(th, rad);
    sx_check(near(p.x, std::cos(th) * rad) && near(p.y, std::sin(th) * rad), "polar coordinates give the point at that angle and distance");
}
extern "C" void h_point_resize() {
    Point2d a(sx_real("ax", -100, 100), sx_real("ay", -100, 100));
    sx_assume(a.x * a.x + a.y * a.y >= 0.01);
    double s = sx_real("size", 0, 50), l = a.length();
    Point2d r = a.resize(s), u = a.normalize();
    sx_check(near(r.x * l, a.x * s) && near(r.y * l, a.y * s), "resizing keeps the direction and gives the length");
    sx_check(near(u.x * l, a.x) && near(u.y * l, a.y), "normalizing gives the unit vector");
}
extern "C" void h_point_angle() {
    Point2d a(sx_real("ax", -100, 100), sx_real("ay", -100, 100));
    sx_assume(a.x * a.x + a.y * a.y >= 0.01);
    double th = a.angle(), l = a.length();
    sx_check(th >= -M_PI && th <= M_PI, "the angle is normalised");
    sx_check(near(std::cos(th) * l, a.x) && near(std::sin(th) * l, a.y), "the angle of a point is its direction");
}
extern "C" void h_pose_ops() {
    Pose2d a(sx_real("ax", -100, 100), sx_real("ay", -100, 100), sx_real("at", -4, 4)), b(sx_real("bx", -100, 100), sx_real("by", -100, 100), sx_real("bt", -4, 4));
    float f = 0.25f * sx_conc(sx_int("f4", -20, 20));
    Pose2d z, s = a + b, d = a - b, m = a * f, m2 = f * a;
    sx_check(z.x == 0 && z.y == 0 && z.theta == 0, "a default pose is the origin");
    sx_check(near(s.x, a.x + b.x) && near(s.y, a.y + b.y), "poses add component-wise");
    sx_check(near(d.x, a.x - b.x) && near(d.y, a.y - b.y), "poses subtract component-wise");
    sx_check(near(m.x, a.x * f) && near(m.y, a.y * f) && m2.x == m.x && m2.y == m.y, "poses scale component-wise");
    if (f != 0) { Pose2d q = a / f; sx_check(near(q.x * f, a.x) && near(q.y * f, a.y), "division undoes scaling"); }
    sx_check(near(dot(a, b), a.x * b.x + a.y * b.y), "the dot product is the sum of the products");
    double ab = a.distance_to(b), ba = b.distance_to(a), l = a.distance_to_origin();
    sx_check(ab >= 0 && near(ab * ab, (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y)), "the distance is Euclidean");
    sx_check(near(ab, ba), "the distance is symmetric");
    sx_check(l >= 0 && near(l * l, a.x * a.x + a.y * a.y) && near(l, a.distance_to(z)), "the distance to the origin is the norm");
}
extern "C" void h_pose_equal() {
    double d = sx_real("d", 0, 3);
    int way = sx_conc(sx_int("way", 0, 3));
    Pose2d a(sx_real("ax", -100, 100), sx_real("ay", -100, 100), sx_real("at", -3, 3));
    double dt = sx_real("dt", -3, 3), de = sx_real("dist_eps", 0, 2), te = sx_real("theta_eps", 0, 2);
    int turns = sx_conc(sx_int("turns", -1, 1));
    Pose2d b(a.x + (way == 0 ? d : way == 1 ? -d : way == 2 ? d * 3 / 5 : -d * 4 / 5), a.y + (way == 2 ? d * 4 / 5 : way == 3 ? d * 3 / 5 : 0), a.theta + dt + turns * 2 * M_PI);
    if (!sx_symbolic() && (std::fabs(d - de) < 1e-9 || std::fabs(std::fabs(dt) - te) < 1e-9)) sx_stop();
    bool want = d <= de && (dt < 0 ? -dt : dt) <= te;
    bool got = a.isEqual(b, de, te);
    if (want) { sx_reach("equal"); sx_check(got, "poses within both tolerances are equal"); } else { sx_reach("different"); sx_check(!got, "poses beyond a tolerance differ"); }
}
