// Lines and circle arcs, where they meet and what touches them (geometry/line, circle, intersector, tangentor).
#include "sx.h"
#include <cmath>
#include <vector>
#include <iostream>
#include <sstream>
#include <string>
#include <cslibs_path_planning/geometry/intersector.h>
#include <cslibs_path_planning/geometry/tangentor.h>
using namespace path_geom;
typedef Eigen::Vector2d V;
static bool near(double a, double b) { return sx_near(a, b, 1e-6); }
static bool at(const V &p, double x, double y) { return near(p.x(), x) & near(p.y(), y); }
static void direction(double &ux, double &uy, double unit = 5) {
    double q = sx_angle("direction");
    ux = 5 * std::cos(q) / unit; uy = 5 * std::sin(q) / unit;
}
// D01: lines
extern "C" void h_line_to() {
    double ux, uy, x = sx_real("x", -10, 10), y = sx_real("y", -10, 10), l = sx_real("length", 0.01, 6), res = sx_fork(sx_bool("coarse")) ? 4 : 1.5;
    direction(ux, uy);
    Line s(V(x, y), V(x + l * ux, y + l * uy));
    std::vector<V> p;
    s.toPoints(res, p);
    sx_check(!p.empty() && at(p.back(), x + l * ux, y + l * uy), "the points of a line end where it does");
    // a line shorter than the resolution is but its end
    if (p.size() > 1) sx_check(at(p[0], x, y), "the points of a line begin where it does"); else sx_check(l <= res + 1e-6, "a line of some length has several points");
    double last = 0;
    for (size_t i = 0; i < p.size(); ++i) {
        double t = (p[i].x() - x) * ux + (p[i].y() - y) * uy;
        sx_check(at(p[i], x + t * ux, y + t * uy) && t >= last - 1e-6 && t <= last + (i + 1 < p.size() ? 1 : 2) * res + 1e-6 && t <= l + 1e-6, "the points of a line lie on it, one behind the other");
        last = t;
    }
    bool forward = sx_fork(sx_bool("forward")), first = sx_fork(sx_bool("with start"));
    PathPoseVec q;
    s.toPoses(res, q, forward ? FORWARD : BACKWARD, first);
    sx_reach(q.size() > 3 ? "many" : q.size() > 1 ? "few" : "one");
    last = first ? -res : 0;
    for (size_t i = 0; i < q.size(); ++i) {
        double t = (q[i].pos_.x() - x) * ux + (q[i].pos_.y() - y) * uy;
        sx_check(at(q[i].pos_, x + t * ux, y + t * uy), "the poses of a line lie on it");
        if (!forward) t = l - t;
        sx_check(near(t, last + res) && t <= l + 1e-6, "the poses of a line are equally far apart, from its beginning or, backwards, from its end");
        sx_check(near(std::cos(q[i].theta_), ux) && near(std::sin(q[i].theta_), uy), "the poses of a line point from its start to its end");
        last = t;
    }
    sx_check(l - last < res + 1e-6, "the poses of a line cover it");
}
extern "C" void h_line_from() {
    double x = sx_real("x", -10, 10), y = sx_real("y", -10, 10), l = sx_real("length", -6, 6), a = sx_angle("heading");
    bool forward = sx_fork(sx_bool("forward"));
    Line s(PathPose(x, y, a), l, forward ? 3 : -1);
    double L = std::fabs(l), c = L * std::cos(a), d = L * std::sin(a);
    V p = s.startPoint(), q = s.endPoint();
    sx_check(forward ? at(p, x, y) && at(q, x + c, y + d) : at(q, x, y) && at(p, x - c, y - d), "a line from a pose follows its heading, backwards it leads to the pose");
}
// where a point is relative to a line
extern "C" void h_line_point() {
    double ux, uy, x = sx_real("x", -10, 10), y = sx_real("y", -10, 10), l = sx_real("length", 0.5, 6), t = sx_real("along", -8, 8), h = sx_real("off", -5, 5);
    direction(ux, uy);
    Line s(V(x, y), V(x + l * ux, y + l * uy));
    V p(x + t * ux - h * uy, y + t * uy + h * ux);
    sx_check(near(s.pointSignedDistance(p), h), "the signed distance to a line is positive to its left");
    int side = s.pointRelativePosition(p);
    sx_check((h > 1e-4 ? side == 1 : true) & (h < -1e-4 ? side == -1 : true) & (h == 0 ? side == 0 : true), "points to the left and right of a line are told apart");
    sx_check(at(s.footPoint(p), x + t * ux, y + t * uy), "the foot point is the closest point of the straight");
    sx_check(at(s.projectPoint(p), x + t * ux, y + t * uy), "the projection is the closest point of the straight");
    Line m = Line::parallel(s, h);
    sx_check(at(m.startPoint(), x - h * uy, y + h * ux) && at(m.endPoint(), x + l * ux - h * uy, y + l * uy + h * ux), "a parallel line runs to the left at the distance asked for");
}
extern "C" void h_line_nearest() {
    double ux, uy, x = sx_real("x", -10, 10), y = sx_real("y", -10, 10), l = sx_real("length", 0.5, 6), t = sx_real("along", -8, 8);
    double h = sx_fork(sx_bool("on the straight")) ? 0 : sx_real("off", -5, 5);
    direction(ux, uy);
    Line s(V(x, y), V(x + l * ux, y + l * uy));
    V p(x + t * ux - h * uy, y + t * uy + h * ux);
    double n = t < 0 ? 0 : t > l ? l : t;
    // the ends of a line are taken with a tolerance
    if (sx_fork((t < 0 && t > -1e-3) || (t > l && t < l + 1e-3))) return;
    sx_check(at(s.nearestPointTo(p), x + n * ux, y + n * uy), "the nearest point of a line is the closest one between its ends");
    double d = s.distanceTo(p);
    sx_check(d >= 0 && near(d * d, h * h + (t - n) * (t - n)), "the distance to a line is that to its nearest point");
    if (sx_fork(h == 0)) sx_check(s.isPointOnSegment(p) == (t == n), "a point is on a line if it is between its ends");
}

// D01: arcs
static double turn(double a) { return a - 2 * M_PI * std::floor(a / (2 * M_PI)); }
static void arc_from_or_to(bool from) {
    double x = sx_real("x", -10, 10), y = sx_real("y", -10, 10), r = sx_real("radius", 0.5, 5), a = sx_angle("heading"), w = sx_angle("sweep") + M_PI;
    bool left = sx_fork(sx_bool("left"));
    double f = left ? 1 : -1;
    Circle c = from ? Circle::createArcFrom(PathPose(x, y, a), r, w, left ? ARC_LEFT : ARC_RIGHT) : Circle::createArcTo(PathPose(x, y, a), r, w, left ? ARC_LEFT : ARC_RIGHT);
    sx_check(c.direction() == (left ? ARC_LEFT : ARC_RIGHT) && near(c.radius(), r) && near(c.getArcAngle(), w), "an arc has the direction, radius and angle asked for");
    sx_check(near(c.getArcLength(), r * w), "the length of an arc is radius times angle");
    double cx = x - f * r * std::sin(a), cy = y + f * r * std::cos(a);
    sx_check(at(c.center(), cx, cy), "an arc turns around the centre at its side");
    double b = from ? a + f * w : a - f * w;
    double ox = cx + f * r * std::sin(b), oy = cy - f * r * std::cos(b);
    sx_check(from ? at(c.startPoint(), x, y) : at(c.endPoint(), x, y), "an arc passes the pose asked for");
    sx_check(from ? at(c.endPoint(), ox, oy) : at(c.startPoint(), ox, oy), "an arc sweeps the angle asked for");
    double s = c.startAngle(), e = c.endAngle();
    sx_check((s >= -1e-6) & (s <= 2 * M_PI + 1e-6) & (e >= -1e-6) & (e <= 2 * M_PI + 1e-6), "the angles of an arc lie within one turn");
}
extern "C" void h_arc_from() { arc_from_or_to(true); }
extern "C" void h_arc_to() { arc_from_or_to(false); }
// an arc between two of its points
extern "C" void h_arc_between() {
    double x = sx_real("x", -10, 10), y = sx_real("y", -10, 10), r = sx_real("radius", 0.5, 5), a = sx_angle("from"), b = sx_angle("to");
    bool left = sx_fork(sx_bool("left"));
    Circle c(V(x, y), -r, left ? 2 : -3);
    sx_check(near(c.getArcAngle(), 2 * M_PI), "a circle is a full turn");
    V p(x + r * std::cos(a), y + r * std::sin(a)), q(x + r * std::cos(b), y + r * std::sin(b));
    bool start_first = sx_fork(sx_bool("start first"));
    if (start_first) { sx_check(c.selectStartPoint(p), "a point of the circle can be its start"); sx_check(c.selectEndPoint(q), "a point of the circle can be its end"); }
    else { sx_check(c.selectEndPoint(q), "a point of the circle can be its end"); sx_check(c.selectStartPoint(p), "a point of the circle can be its start"); }
    sx_check(at(c.startPoint(), p.x(), p.y()) && at(c.endPoint(), q.x(), q.y()), "an arc begins and ends at the points selected");
    double w = c.getArcAngle(), f = left ? 1 : -1;
    sx_check((w >= -1e-6) & (w <= 2 * M_PI + 1e-6), "an arc sweeps between nothing and a full turn");
    sx_check(near(std::cos(a + f * w), std::cos(b)) && near(std::sin(a + f * w), std::sin(b)), "an arc sweeps in its direction from its start to its end");
}
extern "C" void h_arc_refuses() {
    double x = sx_real("x", -10, 10), y = sx_real("y", -10, 10), r = sx_real("radius", 0.5, 5), a = sx_angle("point"), h = sx_real("off", -0.4, 3);
    bool left = sx_fork(sx_bool("left"));
    Circle c(V(x, y), r, left ? 1 : -1);
    c.setArc(0.5, 1.5, left ? 1 : -1);
    V off(x + (r + h) * std::cos(a), y + (r + h) * std::sin(a)), p = c.startPoint(), q = c.endPoint();
    bool s = c.selectStartPoint(off), e = c.selectEndPoint(off);
    sx_check(s == e, "start and end are refused alike");
    sx_check(h > 1e-4 || h < -1e-4 ? !s : true, "a point off the circle is refused");
    sx_check(h < 1e-6 && h > -1e-6 ? s : true, "a point on the circle is taken");
    if (!s) sx_check(at(c.startPoint(), p.x(), p.y()) && at(c.endPoint(), q.x(), q.y()), "a refused point changes nothing");
}
static const double SWEEPS[] = {0, 0.4, 1.5707963267948966, 2.5, 3.1415926535897931, 4.5, 6.2831853071795862};
extern "C" void h_arc_to_poses() {
    double x = sx_real("x", -10, 10), y = sx_real("y", -10, 10), a = sx_angle("from"), r = 2;
    double w = SWEEPS[sx_conc(sx_int("sweep", 0, 6))], res = sx_fork(sx_bool("coarse")) ? 3 : 0.75;
    bool left = sx_fork(sx_bool("left"));
    double f = left ? 1 : -1;
    Circle c = Circle::createArcFrom(PathPose(x - r * std::cos(a), y - r * std::sin(a), a + f * M_PI / 2), r, w, left ? ARC_LEFT : ARC_RIGHT);
    x -= 2 * r * std::cos(a); y -= 2 * r * std::sin(a);
    // the centre is x,y now and the arc begins at the angle a
    bool forward = sx_fork(sx_bool("forward")), first = sx_fork(sx_bool("with start"));
    PathPoseVec q;
    c.toPoses(res, q, forward ? FORWARD : BACKWARD, first);
    int n = (int)(r * w / res);
    sx_check((int)q.size() == n + first, "an arc has as many poses as fit");
    for (size_t i = 0; i < q.size(); ++i) {
        int k = first ? i : i + 1;
        double d = n ? w * k / n : 0, at_ = forward ? a + f * d : a + f * (w - d);
        sx_check(at(q[i].pos_, x + r * std::cos(at_), y + r * std::sin(at_)), "the poses of an arc lie on it, equally far apart");
        sx_check(near(std::cos(q[i].theta_), -f * std::sin(at_)) && near(std::sin(q[i].theta_), f * std::cos(at_)), "the poses of an arc point along it");
    }
    std::vector<V> p;
    c.toPoints(res, p);
    sx_check((int)p.size() == n, "an arc has as many points as fit");
    for (size_t i = 0; i < p.size(); ++i) {
        double at_ = a + f * w * i / n;
        sx_check(at(p[i], x + r * std::cos(at_), y + r * std::sin(at_)), "the points of an arc lie on it, equally far apart");
    }
    sx_reach(q.size() > 3 ? "many" : "few");
}
// which points belong to an arc, and how far away others are
extern "C" void h_arc_point() {
    double x = sx_real("x", -10, 10), y = sx_real("y", -10, 10), r = 2, a = sx_angle("from"), q = sx_angle("point");
    double w = SWEEPS[sx_conc(sx_int("sweep", 1, 6))];
    bool left = sx_fork(sx_bool("left"));
    double f = left ? 1 : -1;
    Circle c(V(x, y), r, left ? ARC_LEFT : ARC_RIGHT);
    c.setArc(a, w, left ? ARC_LEFT : ARC_RIGHT);
    double d = f * (q - a);
    if (sx_fork(d < 0)) d += 2 * M_PI;
    V p(x + r * std::cos(q), y + r * std::sin(q));
    // the ends themselves may count either way
    sx_assume(d > 1e-6 && d < 2 * M_PI - 1e-6 && (d < w - 1e-6 || d > w + 1e-6));
    bool on = c.isPointOnArc(p);
    sx_reach(on ? "on the arc" : "off the arc");
    sx_check(on == (d < w), "a point is on an arc if the arc sweeps over it");
    V far(x + 1.1 * r * std::cos(q), y + 1.1 * r * std::sin(q));
    sx_check(!c.isPointOnArc(far), "a point off the circle is not on the arc");
}
extern "C" void h_arc_nearest() {
    static const int X[12] = {5, 3, 0, -4, -5, -3, 0, 4, 4, -3, -4, 3}, Y[12] = {0, 4, 5, 3, 0, -4, -5, -3, 3, 4, -3, -4};
    static const double FROM[] = {0.3, 2, -2.5};
    double x = 1.5, y = -2, r = 2, a = FROM[sx_conc(sx_int("from", 0, 2))], h = sx_real("from centre", 0.05, 1), ux, uy;
    int k = sx_conc(sx_int("direction", 0, 11));
    ux = X[k]; uy = Y[k];
    double q = std::atan2(uy, ux);
    double w = SWEEPS[sx_conc(sx_int("sweep", 1, 5))];
    bool left = sx_fork(sx_bool("left"));
    double f = left ? 1 : -1;
    Circle c(V(x, y), r, left ? ARC_LEFT : ARC_RIGHT);
    c.setArc(a, w, left ? ARC_LEFT : ARC_RIGHT);
    double d = turn(f * (q - a));
    sx_assume(d > 1e-4 && d < 2 * M_PI - 1e-4 && (d < w - 1e-4 || d > w + 1e-4));
    V p(x + h * ux, y + h * uy), n = c.nearestPointTo(p);
    double dist = c.distanceTo(p);
    sx_check(dist >= 0 && near(dist * dist, (p.x() - n.x()) * (p.x() - n.x()) + (p.y() - n.y()) * (p.y() - n.y())), "the distance to an arc is that to its nearest point");
    if (d < w) { sx_check(at(n, x + r * std::cos(q), y + r * std::sin(q)), "the nearest point of an arc lies in the direction of the point"); sx_reach("on the arc"); }
    else {
        sx_reach("off the arc");
        double e = a + f * w, sx = x + r * std::cos(a), sy = y + r * std::sin(a), ex = x + r * std::cos(e), ey = y + r * std::sin(e);
        double ds = (p.x() - sx) * (p.x() - sx) + (p.y() - sy) * (p.y() - sy), de = (p.x() - ex) * (p.x() - ex) + (p.y() - ey) * (p.y() - ey);
        double dn = (p.x() - n.x()) * (p.x() - n.x()) + (p.y() - n.y()) * (p.y() - n.y());
        sx_check(at(n, sx, sy) | at(n, ex, ey), "the nearest point of an arc is one of its ends then");
        sx_check((dn <= ds + 1e-6) & (dn <= de + 1e-6), "the nearest point of an arc is its nearer end");
    }
}

// D02: meeting points
static bool on_circle(const V &p, double x, double y, double r) { return near((p.x() - x) * (p.x() - x) + (p.y() - y) * (p.y() - y), r * r); }
// a line whose foot point as seen from the centre is at distance h, half the chord being s: h*h + s*s = r*r
extern "C" void h_line_circle() {
    static const int H[] = {0, 3, -4, 5, 1, -1}, S[] = {1, 4, 3, 12, 0, 0}, R[] = {1, 5, 5, 13, 1, 1};
    int n = sx_conc(sx_int("chord", 0, 5));
    double k = sx_real("scale", 0.05, 2), h = k * H[n], s = k * S[n], r = k * R[n], x = sx_real("x", -10, 10), y = sx_real("y", -10, 10), t0 = sx_real("from", -30, 30), l = sx_real("length", 0.5, 40), ux, uy;
    direction(ux, uy, 1);
    ux /= 5; uy /= 5;
    Circle c(V(x, y), r, sx_fork(sx_bool("left")) ? ARC_LEFT : ARC_RIGHT);
    Line line(V(x - h * uy + t0 * ux, y + h * ux + t0 * uy), V(x - h * uy + (t0 + l) * ux, y + h * ux + (t0 + l) * uy));
    // the ends of the line not on the circle
    double a = t0 + s, b = t0 - s, e = 1e-3;
    sx_assume((a > e || a < -e) && (b > e || b < -e) && (a + l > e || a + l < -e) && (b + l > e || b + l < -e));
    std::vector<V> p(1, V(77, 77));
    Intersector::intersect(line, c, p);
    int want = S[n] ? (sx_fork(t0 <= -s && t0 + l >= -s) ? 1 : 0) + (sx_fork(t0 <= s && t0 + l >= s) ? 1 : 0) : (sx_fork(t0 <= 0 && t0 + l >= 0) ? 1 : 0);
    sx_reach(want == 2 ? "crossing" : want == 1 ? S[n] ? "entering" : "touching" : "apart");
    sx_check((int)p.size() == want, "a line meets a circle in as many points as there are");
    for (size_t i = 0; i < p.size(); ++i) {
        sx_check(on_circle(p[i], x, y, r), "a point where a line meets a circle is on the circle");
        double t = (p[i].x() - x) * ux + (p[i].y() - y) * uy;
        sx_check(at(p[i], x - h * uy + t * ux, y + h * ux + t * uy) && t >= t0 - 1e-6 && t <= t0 + l + 1e-6, "a point where a line meets a circle is on the line");
        if (i) sx_check(!at(p[i], p[0].x(), p[0].y()), "the points where a line meets a circle are different ones");
    }
}
extern "C" void h_line_misses() {
    double r = sx_real("radius", 0.1, 5), h = sx_real("off", 0, 10), x = sx_real("x", -10, 10), y = sx_real("y", -10, 10), t0 = sx_real("from", -10, 10), l = sx_real("length", 0.5, 20), ux, uy;
    direction(ux, uy, 1);
    ux /= 5; uy /= 5;
    if (sx_fork(sx_bool("right"))) h = -h;
    Circle c(V(x, y), r);
    Line line(V(x - h * uy + t0 * ux, y + h * ux + t0 * uy), V(x - h * uy + (t0 + l) * ux, y + h * ux + (t0 + l) * uy));
    double d = r * r - h * h;
    sx_assume(d > 1e-3 || d < -1e-3);
    std::vector<V> p;
    Intersector::intersect(line, c, p);
    if (sx_fork(d < 0)) { sx_reach("apart"); sx_check(p.empty(), "a line that misses a circle does not meet it"); }
    else { sx_reach("close"); for (size_t i = 0; i < p.size(); ++i) sx_check(on_circle(p[i], x, y, r), "a point where a line meets a circle is on the circle"); }
}
extern "C" void h_circles() {
    double r1 = sx_real("radius", 0.2, 5), r2 = sx_real("other radius", 0.2, 5), d = sx_real("distance", 0.01, 2.5), x = sx_real("x", -10, 10), y = sx_real("y", -10, 10), ux, uy;
    direction(ux, uy, 1);
    double cx = x + d * ux, cy = y + d * uy;
    d *= 5;
    Circle a(V(x, y), r1, 1), b(V(cx, cy), r2, -1);
    double e = 1e-3, diff = r1 < r2 ? r2 - r1 : r1 - r2;
    // well apart, within, or crossing
    int kind = sx_fork(d > r1 + r2 + e) ? 0 : sx_fork(d < diff - e) ? 1 : 2;
    if (kind == 2) sx_assume(d < r1 + r2 - e && d > diff + e);
    std::vector<V> p(1, V(77, 77));
    Intersector::intersect(a, b, p);
    sx_reach(kind == 0 ? "apart" : kind == 1 ? "within" : "crossing");
    sx_check(p.size() == (kind == 2 ? 2 : 0), "two circles meet in as many points as there are");
    if (p.size() != 2) return;
    for (int i = 0; i < 2; ++i) sx_check(on_circle(p[i], x, y, r1) && on_circle(p[i], cx, cy, r2), "a point where circles meet is on both");
    double side0 = (p[0].x() - x) * uy - (p[0].y() - y) * ux, side1 = (p[1].x() - x) * uy - (p[1].y() - y) * ux;
    sx_check(side0 * side1 < 0, "the points where circles meet are different ones");
}
extern "C" void h_circles_touch() {
    double k = sx_real("scale", 0.1, 2), x = sx_real("x", -10, 10), y = sx_real("y", -10, 10), ux, uy;
    static const int R1[] = {1, 3, 5, 5, 2, 4}, R2[] = {1, 2, 1, 3, 5, 9};
    int n = sx_conc(sx_int("radii", 0, 5));
    bool inside = n > 1 && sx_fork(sx_bool("inside"));
    double r1 = k * R1[n], r2 = k * R2[n], d = inside ? R1[n] - R2[n] : R1[n] + R2[n];
    direction(ux, uy, 1);
    double s = d < 0 ? -1 : 1, cx = x + k * s * d / 5 * ux, cy = y + k * s * d / 5 * uy;
    Circle a(V(x, y), r1, 1), b(V(cx, cy), r2, -1);
    std::vector<V> p;
    Intersector::intersect(a, b, p);
    sx_reach(inside ? "inside" : "outside");
    sx_check(p.size() == 1, "circles that touch meet in one point");
    for (size_t i = 0; i < p.size(); ++i) sx_check(at(p[i], x + (inside ? s : 1) * r1 * ux / 5, y + (inside ? s : 1) * r1 * uy / 5), "circles that touch meet where they touch");
}
extern "C" void h_circles_same() {
    double r1 = sx_real("radius", 0.2, 5), r2 = sx_fork(sx_bool("same")) ? r1 : sx_real("other radius", 0.2, 5), x = sx_real("x", -10, 10), y = sx_real("y", -10, 10);
    Circle a(V(x, y), r1, 1), b(V(x, y), r2, -1);
    std::vector<V> p(1, V(77, 77));
    Intersector::intersect(a, b, p);
    sx_check(p.empty(), "circles around one centre have no single meeting points");
}
// arcs: circles of radius 2 around (0,0) and (2,0) meet at (1, +-sqrt 3), at 60 and -60 degrees as seen from the first, at 120 and -120 from the second
extern "C" void h_arcs_meet() {
    double a = sx_angle("from"), w = SWEEPS[sx_conc(sx_int("sweep", 1, 5))], w2 = SWEEPS[sx_conc(sx_int("other sweep", 1, 5))], a2 = 0.3;
    bool left = sx_fork(sx_bool("left"));
    double f = left ? 1 : -1;
    Circle c(V(0, 0), 2, 1), o(V(2, 0), 2, 1);
    c.setArc(a, w, left ? ARC_LEFT : ARC_RIGHT);
    o.setArc(a2, w2, ARC_LEFT);
    int want = 0;
    for (int i = 0; i < 2; ++i) {
        double q = i ? -M_PI / 3 : M_PI / 3, d = f * (q - a), d2 = i ? -2 * M_PI / 3 - a2 : 2 * M_PI / 3 - a2;
        if (sx_fork(d < 0)) d += 2 * M_PI;
        if (d2 < 0) d2 += 2 * M_PI;
        sx_assume(d > 1e-6 && d < 2 * M_PI - 1e-6 && (d < w - 1e-6 || d > w + 1e-6));
        if (d2 < w2 && sx_fork(d < w)) ++want;
    }
    std::vector<V> p;
    Intersector::intersectArcs(c, o, p);
    sx_reach(want == 2 ? "two" : want == 1 ? "one" : "none");
    sx_check((int)p.size() == want, "arcs meet where their circles do and both sweep over");
}
// arcs that touch another circle just where they begin or end
extern "C" void h_arcs_ends() {
    static const int QX[] = {1, 0, -1, 0}, QY[] = {0, 1, 0, -1};
    double x = sx_real("x", -10, 10), y = sx_real("y", -10, 10), r = sx_real("radius", 0.2, 5), r2 = sx_real("other radius", 0.2, 5);
    int q = sx_conc(sx_int("quarter", 0, 3));
    double w = SWEEPS[sx_conc(sx_int("sweep", 1, 5))], a = q * (M_PI / 2);
    bool left = sx_fork(sx_bool("left")), end = sx_fork(sx_bool("end")), swap = sx_fork(sx_bool("swap"));
    if (end) a += left ? -w : w;
    Circle c(V(x, y), r, 1), o(V(x + (r + r2) * QX[q], y + (r + r2) * QY[q]), r2, 1);
    c.setArc(a, w, left ? ARC_LEFT : ARC_RIGHT);
    o.setArc((q + 1) * (M_PI / 2), M_PI, ARC_LEFT);        // the half of the other circle facing the first
    std::vector<V> p;
    if (swap) Intersector::intersectArcs(o, c, p); else Intersector::intersectArcs(c, o, p);
    sx_reach(end ? "end" : "start");
    sx_check(p.size() == 1, "an arc meets what touches its ends");
    if (p.size() == 1) sx_check(at(p[0], x + r * QX[q], y + r * QY[q]), "arcs meet where they touch");
}
extern "C" void h_lines_meet() {
    double ux, uy, x = sx_real("x", -10, 10), y = sx_real("y", -10, 10), s0 = sx_real("s0", -5, 5), s1 = sx_real("s1", -5, 5), t0 = sx_real("t0", -5, 5), t1 = sx_real("t1", -5, 5);
    direction(ux, uy, 1);
    double vx = -ux + 2 * uy, vy = -uy - 2 * ux, e = 1e-3;
    sx_assume(s1 - s0 > 0.1 && t1 - t0 > 0.1 && (s0 < -e || s0 > e) && (s1 < -e || s1 > e) && (t0 < -e || t0 > e) && (t1 < -e || t1 > e));
    Line a(V(x + s0 * ux, y + s0 * uy), V(x + s1 * ux, y + s1 * uy)), b(V(x + t0 * vx, y + t0 * vy), V(x + t1 * vx, y + t1 * vy));
    V p(77, 77);
    bool meet = Intersector::intersect(a, b, p);
    sx_reach(meet ? "meet" : "apart");
    sx_check(meet == (s0 < 0 && s1 > 0 && t0 < 0 && t1 > 0), "lines meet if they cross between their ends");
    if (meet) sx_check(at(p, x, y), "lines meet where they cross");
}

// D03: tangent circles, arcs and paths
static int arc_sign(const Circle &c) { return c.direction() == ARC_LEFT ? 1 : -1; }
static bool heads(const Circle &c, bool start, double ux, double uy) {
    double a = start ? c.startAngle() : c.endAngle(), f = arc_sign(c);
    return near(-f * std::sin(a), ux) & near(f * std::cos(a), uy);
}
// the heading of a circle at one of its points
static bool follows(const Circle &c, bool start, const V &m, double r, int dir) {
    V p = start ? c.startPoint() : c.endPoint();
    return heads(c, start, -dir * (p.y() - m.y()) / r, dir * (p.x() - m.x()) / r) && on_circle(p, m.x(), m.y(), r);
}
// a line along (ux,uy) from (x,y), and a circle whose tangent circles' centres lie at h off the line and at s before and behind its own foot point: h*h + s*s = (R+r)*(R+r)
struct Scene { double k, x, y, q, ux, uy, R, r, h, s, l, t; int side, dir; };
static Scene scene(int kinds = 6) {
    static const int RR[] = {2, 3, 8, 1, 9, 2, 3}, T[] = {3, 2, 5, 4, 8, 3, 2}, H[] = {3, 4, 5, 3, 8, 0, 3}, S[] = {4, 3, 12, 4, 15, 5, 4};
    Scene c;
    int n = sx_conc(sx_int("circles", 0, kinds - 1));
    c.k = sx_real("scale", 0.1, 3); c.x = sx_real("x", -10, 10); c.y = sx_real("y", -10, 10); c.q = sx_angle("heading");
    c.ux = std::cos(c.q); c.uy = std::sin(c.q);
    c.side = sx_fork(sx_bool("left of the line")) ? 1 : -1;
    c.dir = sx_fork(sx_bool("left arc")) ? 1 : -1;
    // centre of the circle: at t along the line and h + side*T to its left
    int h = sx_fork(sx_bool("beyond")) ? -H[n] : H[n];
    c.R = c.k * RR[n]; c.r = c.k * T[n]; c.h = c.k * (c.side * T[n] + h); c.s = c.k * S[n];
    return c;
}
static void lay(Scene &c, int from, int to) { c.t = -c.k * from; c.l = c.k * (to - from); }
static V along(const Scene &c, double t, double h) { return V(c.x + t * c.ux - h * c.uy, c.y + t * c.uy + h * c.ux); }
extern "C" void h_tangent_circles() {
    Scene c = scene(7);
    static const int FROM[] = {-40, -2, 0}, TO[] = {40, 40, 2};
    int n = sx_conc(sx_int("line", 0, 2));
    Line line(along(c, c.k * FROM[n], 0), along(c, c.k * TO[n], 0));
    V m = along(c, 0, c.h);
    Circle circle(m, c.R, c.dir);
    aligned<Circle>::vector res(1, Circle(V(77, 77), 1));
    Tangentor::tangentCircles(line, circle, c.r, res);
    int found = 0;
    sx_check(res.size() <= 4, "there are at most four tangent circles");
    double ts[4], hs[4];
    for (size_t i = 0; i < res.size(); ++i) {
        V p = res[i].center();
        double t = (p.x() - c.x) * c.ux + (p.y() - c.y) * c.uy, h = (p.y() - c.y) * c.ux - (p.x() - c.x) * c.uy;
        sx_check(near(res[i].radius(), c.r) && res[i].direction() == -circle.direction(), "a tangent circle has the radius asked for and turns the other way");
        sx_check(near(h * h, c.r * c.r), "a tangent circle touches the line");
        sx_check(t >= c.k * FROM[n] - 1e-6 && t <= c.k * TO[n] + 1e-6, "a tangent circle touches the line between its ends");
        sx_check(on_circle(p, m.x(), m.y(), c.R + c.r), "a tangent circle touches the circle from outside");
        for (size_t j = 0; j < i; ++j) sx_check(!(near(t, ts[j]) & near(h, hs[j])), "a tangent circle is given once");
        ts[i] = t; hs[i] = h;
        for (int s = -1; s <= 1; s += 2) if (near(t, s * c.s) & near(h, c.side * c.r)) ++found;
    }
    int want = 0;
    for (int s = -1; s <= 1; s += 2) if (s * c.s >= c.k * FROM[n] && s * c.s <= c.k * TO[n]) ++want;
    sx_check(found == want, "every tangent circle is found");
    sx_reach(res.empty() ? "none" : res.size() > 2 ? "both sides" : "some");
}
static const int FROM[] = {-40, -2, 0}, TO[] = {40, 40, 2};
// an arc between the line and the circle: smooth at both ends
static void check_arc(const Scene &c, const Circle &a, const V &m, bool to_circle) {
    V p = a.center(), s = to_circle ? a.startPoint() : a.endPoint();
    double t = (p.x() - c.x) * c.ux + (p.y() - c.y) * c.uy;
    sx_check(near(a.radius(), c.r) && a.direction() == -c.dir, "a tangent arc has the radius asked for and turns the other way");
    V foot = along(c, t, 0);
    sx_check(at(s, foot.x(), foot.y()) && heads(a, to_circle, c.ux, c.uy), "a tangent arc joins the line smoothly");
    sx_check(follows(a, !to_circle, m, c.R, c.dir), "a tangent arc joins the circle smoothly");
    double w = a.getArcAngle();
    sx_check((w >= -1e-6) & (w <= 2 * M_PI + 1e-6), "a tangent arc sweeps at most a full turn");
}
static void tangent_arc(bool to_circle) {
    Scene c = scene();
    int n = sx_conc(sx_int("line", 0, 2));
    Line line(along(c, c.k * FROM[n], 0), along(c, c.k * TO[n], 0));
    V m = along(c, 0, c.h);
    Circle circle(m, c.R, c.dir);
    aligned<Circle>::vector res(1, Circle(V(77, 77), 1));
    if (to_circle) Tangentor::tangentArc(line, circle, c.r, res); else Tangentor::tangentArc(circle, line, c.r, res);
    sx_check(res.size() <= 2, "there are at most two tangent arcs");
    int found = 0, want = 0;
    for (size_t i = 0; i < res.size(); ++i) {
        check_arc(c, res[i], m, to_circle);
        V p = res[i].center();
        double t = (p.x() - c.x) * c.ux + (p.y() - c.y) * c.uy, h = (p.y() - c.y) * c.ux - (p.x() - c.x) * c.uy;
        for (int s = -1; s <= 1; s += 2) if (near(t, s * c.s) & near(h, c.side * c.r)) ++found;
    }
    if (c.side == -c.dir) for (int s = -1; s <= 1; s += 2) if (s * c.s >= c.k * FROM[n] && s * c.s <= c.k * TO[n]) ++want;
    sx_check(found == want, "every tangent arc is found");
    sx_reach(res.empty() ? "none" : res.size() > 1 ? "two" : "one");
}
extern "C" void h_arc_to_circle() { tangent_arc(true); }
extern "C" void h_arc_to_line() { tangent_arc(false); }
static void tangent_path(bool to_circle) {
    Scene c = scene();
    int n = sx_conc(sx_int("line", 0, 2));
    auto line = make_aligned<Line>(along(c, c.k * FROM[n], 0), along(c, c.k * TO[n], 0));
    V m = along(c, 0, c.h);
    Circle circle(m, c.R, c.dir);
    std::vector<std::shared_ptr<Shape>> path(1, line);
    if (sx_fork(sx_bool("any shape"))) Tangentor::tangentPath(line, circle, c.r, to_circle, path);
    else if (to_circle) Tangentor::tangentPath(*line, circle, c.r, path); else Tangentor::tangentPath(circle, *line, c.r, path);
    aligned<Circle>::vector arcs;
    if (to_circle) Tangentor::tangentArc(*line, circle, c.r, arcs); else Tangentor::tangentArc(circle, *line, c.r, arcs);
    sx_check(path.empty() == arcs.empty(), "there is a path if there is a tangent arc");
    sx_reach(path.empty() ? "none" : "path");
    if (path.empty()) return;
    sx_check(path.size() == 3, "a path over a tangent arc has three parts");
    Line *l = static_cast<Line *>(path[to_circle ? 0 : 2].get());
    Circle *a = static_cast<Circle *>(path[1].get()), *o = static_cast<Circle *>(path[to_circle ? 2 : 0].get());
    check_arc(c, *a, m, to_circle);
    for (size_t i = 0; i < arcs.size(); ++i) sx_check(a->getArcAngle() <= arcs[i].getArcAngle() + 1e-6, "a path takes the shortest tangent arc");
    V p = to_circle ? l->startPoint() : l->endPoint(), q = to_circle ? line->startPoint() : line->endPoint();
    sx_check(at(p, q.x(), q.y()), "a path keeps the end of the line");
    p = to_circle ? l->endPoint() : l->startPoint(); q = to_circle ? a->startPoint() : a->endPoint();
    sx_check(at(p, q.x(), q.y()), "a path leads from the line into the arc or back");
    V d = l->endPoint() - l->startPoint();
    sx_check(d.x() * c.ux + d.y() * c.uy >= -1e-6, "a path follows the line forwards");
    sx_check(at(o->center(), m.x(), m.y()) && near(o->radius(), c.R) && o->direction() == circle.direction(), "a path keeps the circle");
    p = to_circle ? o->startPoint() : o->endPoint(); q = to_circle ? a->endPoint() : a->startPoint();
    sx_check(at(p, q.x(), q.y()), "a path leads from the arc into the circle or back");
}
extern "C" void h_path_to_circle() { tangent_path(true); }
extern "C" void h_path_to_line() { tangent_path(false); }
// circles touching a first one from outside and a second one from inside
extern "C" void h_inner_circles() {
    double r1 = sx_real("first radius", 0.2, 5), r2 = sx_real("second radius", 0.2, 8), r = sx_real("radius", 0.1, 9), d = sx_real("distance", 0.01, 2.5), x = sx_real("x", -10, 10), y = sx_real("y", -10, 10), ux, uy;
    direction(ux, uy, 1);
    double cx = x + d * ux, cy = y + d * uy, e = 1e-3;
    d *= 5;
    int dir = sx_fork(sx_bool("left")) ? 1 : -1;
    Circle a(V(x, y), r1, sx_fork(sx_bool("same direction")) ? dir : -dir), b(V(cx, cy), r2, dir);
    aligned<Circle>::vector res(1, Circle(V(77, 77), 1));
    int kind;
    if (sx_fork(r >= r2)) kind = 0;
    else {
        double A = r1 + r, B = r2 - r, diff = A < B ? B - A : A - B;
        kind = sx_fork(d > A + B + e) ? 0 : sx_fork(d < diff - e) ? 0 : 2;
        if (kind == 2) sx_assume(d < A + B - e && d > diff + e);
    }
    Tangentor::tangentInnerCircles(a, b, r, res);
    sx_check((int)res.size() == kind, "there are as many inner tangent circles as should be");
    sx_reach(kind ? "two" : "none");
    double side[2];
    for (int i = 0; i < kind; ++i) {
        V p = res[i].center();
        sx_check(near(res[i].radius(), r) && res[i].direction() == b.direction(), "an inner tangent circle has the radius asked for and turns like the circle around it");
        sx_check(on_circle(p, x, y, r1 + r), "an inner tangent circle touches the first circle from outside");
        sx_check(on_circle(p, cx, cy, r2 - r), "an inner tangent circle touches the second circle from inside");
        side[i] = (p.x() - x) * uy - (p.y() - y) * ux;
    }
    if (kind) sx_check(side[0] * side[1] < 0, "the inner tangent circles are different ones");
}
// distances of the centre of the tangent circle to the first and second circle's, and of these: triangles with whole sides and area
struct Inner { double k, x, y, q, r1, r2, r; int A, B, D, dir1, dir2, area; V c1, c2; };
static Inner inner() {
    static const int AA[] = {13, 14, 5, 8, 4, 20, 2, 9, 2, 9}, BB[] = {14, 13, 5, 5, 3, 13, 3, 4, 3, 3}, DD[] = {15, 15, 6, 5, 5, 21, 5, 5, 6, 5}, AREA[] = {84, 84, 12, 12, 6, 126, 0, 0, -1, -1}, R[] = {3, 5, 2, 4, 1, 7, 1, 6, 1, 6};
    Inner c;
    int n = sx_conc(sx_int("triangle", 0, 9));
    c.A = AA[n]; c.B = BB[n]; c.D = DD[n]; c.area = AREA[n];
    c.k = sx_real("scale", 0.1, 3); c.x = sx_real("x", -10, 10); c.y = sx_real("y", -10, 10); c.q = sx_angle("heading");
    c.dir2 = sx_fork(sx_bool("left")) ? 1 : -1;
    c.r = c.k * R[n]; c.r1 = c.k * (c.A - R[n]); c.r2 = c.k * (c.B + R[n]);
    c.c2 = V(c.x, c.y); c.c1 = V(c.x + c.k * c.D * std::cos(c.q), c.y + c.k * c.D * std::sin(c.q));
    return c;
}
static double above(const Inner &c, const V &p) { return (p.y() - c.y) * std::cos(c.q) - (p.x() - c.x) * std::sin(c.q); }
// how far the tangent arc on the one or other side turns from the first to the second circle
static double sweep(const Inner &c, int side) {
    double a = (c.B * c.B - c.A * c.A + c.D * c.D) / (2.0 * c.D), h = side * 2.0 * c.area / c.D;
    return turn(c.dir2 * (std::atan2(h, a) - std::atan2(h, a - c.D) - M_PI));
}
// smooth from the first circle into the tangent arc and on into the second, or the other way round
static void check_inner(const Inner &c, const Circle &a, bool from_first) {
    sx_check(near(a.radius(), c.r) && a.direction() == c.dir2, "an inner tangent arc has the radius asked for and turns like the circle around it");
    sx_check(follows(a, from_first, c.c1, c.r1, -c.dir2), "an inner tangent arc joins the first circle smoothly");
    sx_check(follows(a, !from_first, c.c2, c.r2, c.dir2), "an inner tangent arc joins the second circle smoothly");
    V p = a.center();
    sx_check(on_circle(p, c.c1.x(), c.c1.y(), c.r1 + c.r) && on_circle(p, c.c2.x(), c.c2.y(), c.r2 - c.r), "an inner tangent arc touches both circles");
}
extern "C" void h_inner_arcs() {
    Inner c = inner();
    bool opposite = sx_fork(sx_bool("opposite")), part = opposite && c.area > 0 && sx_fork(sx_bool("part of the circle"));
    Circle a(c.c1, c.r1, opposite ? -c.dir2 : c.dir2), b(c.c2, c.r2, c.dir2);
    // only the half of the second circle on one side of both centres
    if (part) b.setArc(c.q, M_PI, c.dir2);
    aligned<Circle>::vector res(1, Circle(V(77, 77), 1));
    Tangentor::tangentInnerArcs(a, b, c.r, res);
    int want = opposite && c.area >= 0;
    sx_check((int)res.size() == want, "there is one inner tangent arc if the circles are such and turn opposite ways");
    sx_reach(want ? part ? "half" : "arc" : "none");
    if (!want) return;
    check_inner(c, res[0], true);
    double u = sweep(c, 1), d = sweep(c, -1), w = res[0].getArcAngle();
    if (part) { sx_check(near(w, c.dir2 > 0 ? u : d), "an inner tangent arc leads to the arc itself"); sx_check(above(c, res[0].endPoint()) * c.dir2 > 0, "an inner tangent arc ends on the arc itself"); }
    else sx_check(near(w, u < d ? u : d), "the shorter inner tangent arc is taken");
}
extern "C" void h_inner_path() {
    Inner c = inner();
    bool from_small = sx_fork(sx_bool("from small")), any = sx_fork(sx_bool("any shape"));
    auto a = make_aligned<Circle>(c.c1, c.r1, -c.dir2), b = make_aligned<Circle>(c.c2, c.r2, c.dir2);
    std::vector<std::shared_ptr<Shape>> path(1, a);
    if (any) Tangentor::tangentPath(b, *a, c.r, !from_small, path); else Tangentor::tangentPath(*a, *b, c.r, from_small, path);
    double u = sweep(c, 1), d = sweep(c, -1);
    if (!from_small) { u = 2 * M_PI - turn(u); d = 2 * M_PI - turn(d); if (u > 2 * M_PI - 1e-9) u = 0; if (d > 2 * M_PI - 1e-9) d = 0; }
    double w = c.area == 0 ? u : u < d ? u : d;
    bool half = w > M_PI - 1e-6 && w < M_PI + 1e-6;
    int want = c.area >= 0 && w <= M_PI + 1e-6;
    if (half) return;
    sx_check(path.empty() == !want, "there is a path if a tangent arc of at most half a turn leads over");
    sx_reach(path.empty() ? "none" : from_small ? "from small" : "to small");
    if (path.empty()) return;
    sx_check(path.size() == 3, "a path over a tangent arc has three parts");
    Circle *s = static_cast<Circle *>(path[from_small ? 0 : 2].get()), *m = static_cast<Circle *>(path[1].get()), *l = static_cast<Circle *>(path[from_small ? 2 : 0].get());
    check_inner(c, *m, from_small);
    sx_check(near(m->getArcAngle(), w), "a path takes the shortest tangent arc");
    sx_check(near(s->radius(), c.r1) && at(s->center(), c.c1.x(), c.c1.y()) && s->direction() == -c.dir2, "a path keeps the small circle");
    sx_check(near(l->radius(), c.r2) && at(l->center(), c.c2.x(), c.c2.y()) && l->direction() == c.dir2, "a path keeps the large circle");
    Circle *first = static_cast<Circle *>(path[0].get()), *last = static_cast<Circle *>(path[2].get());
    V p = m->startPoint(), q = m->endPoint();
    sx_check(at(first->endPoint(), p.x(), p.y()), "a path leads from the first circle into the arc");
    sx_check(at(last->startPoint(), q.x(), q.y()), "a path leads from the arc into the second circle");
}

// poses
extern "C" void h_pose_identical() {
    double x = sx_real("x", -10, 10), y = sx_real("y", -10, 10), d = sx_real("apart", 0, 3), ux, uy, a = sx_angle("heading"), b = sx_angle("other heading");
    double tol = sx_real("tolerance", 0.001, 2), turn_tol = sx_real("heading tolerance", 0.001, 3);
    direction(ux, uy);
    PathPose p(x, y, a), q(x + d * ux, y + d * uy, b);
    double t = a - b;
    if (sx_fork(t < 0)) t = -t;
    if (sx_fork(t > M_PI)) t = 2 * M_PI - t;
    sx_assume((d > tol + 1e-6 || d < tol - 1e-6) && (t > turn_tol + 1e-6 || t < turn_tol - 1e-6));
    bool same = p.isIdentical(q, tol, turn_tol);
    sx_reach(same ? "identical" : "different");
    sx_check(same == (d < tol && t < turn_tol), "poses are identical if they are close and head the same way");
    sx_check(p.isIdentical(q.pos_, tol) == (d < tol), "a pose is at a point if it is close");
}
extern "C" void h_copy() {
    double x = sx_real("x", -10, 10), y = sx_real("y", -10, 10), l = sx_real("length", 0.5, 6), ux, uy, r = sx_real("radius", 0.5, 5), w = sx_angle("sweep") + M_PI, a = sx_angle("heading");
    direction(ux, uy);
    bool round = sx_fork(sx_bool("circle")), left = sx_fork(sx_bool("left"));
    std::shared_ptr<Shape> s;
    if (round) s = make_aligned<Circle>(Circle::createArcFrom(PathPose(x, y, a), r, w, left ? ARC_LEFT : ARC_RIGHT));
    else s = make_aligned<Line>(V(x, y), V(x + l * ux, y + l * uy));
    std::shared_ptr<Shape> c = Shape::deepCopy(s);
    sx_check(c && c != s, "a copy is another shape");
    V p = s->startPoint(), q = s->endPoint();
    sx_check(at(c->startPoint(), p.x(), p.y()) && at(c->endPoint(), q.x(), q.y()), "a copy begins and ends where the original does");
    Circle *k = dynamic_cast<Circle *>(c.get());
    sx_check((k != 0) == round, "a copy is a shape of the same kind");
    if (k) sx_check(near(k->getArcAngle(), w) && near(k->radius(), r) && k->direction() == (left ? ARC_LEFT : ARC_RIGHT), "a copied arc is the same arc");
    // changing the original
    s->selectStartPoint(q);
    sx_check(at(c->startPoint(), p.x(), p.y()), "a copy keeps its start when the original is changed");
}
