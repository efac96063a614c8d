// Waypoints of arcs, straights and whole curves, and curves among obstacles (ReedsShepp/CircleSegment, LineSegment, Curve).
#include "sx.h"
#include <cmath>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <Eigen/Core>
#include <cslibs_path_planning/ReedsShepp/CurveGenerator.h>
#include <cslibs_path_planning/common/GridMap2d.h>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
using namespace lib_path;
static bool near(double a, double b) { return sx_near(a, b, 1e-6); }
// arcs: any start, any sweep, four spacings
extern "C" void h_arc_points() {
    static const double SPACING[] = {1.5, 2.5, 5, 30};
    double d = SPACING[sx_conc(sx_int("spacing", 0, 3))], r = 2, step = d / r, cx = 1.5, cy = -2.25;
    bool left = sx_fork(sx_bool("left")), forward = sx_fork(sx_bool("forward"));
    CircleSegment c(left ? CircleSegment::LEFT_CURVE : CircleSegment::RIGHT_CURVE, forward ? CurveSegment::FORWARD : CurveSegment::BACKWARD);
    SimpleGridMap2d m(1, 1, 1.0);
    c.set_map(&m);
    c.set_max_distance(d);
    c.set_radius(r);
    Point2d centre(cx, cy);
    c.set_center(centre);
    double a = sx_angle("start"), b = sx_angle("end");
    c.set_start_angle(a); c.set_end_angle(b);
    bool up = left == forward;
    int n = 0;
    double last = 0;
    c.reset_iteration();
    for (; c.has_next() && n < 20; ++n) {
        Pose2d p = c.next();
        double at = p.theta + (left ? -M_PI / 2 : M_PI / 2);
        if (n == 0) sx_check(near(std::cos(at), std::cos(a)) && near(std::sin(at), std::sin(a)), "the waypoints of an arc begin at its start");
        sx_check(near(p.x, cx + r * std::cos(at)) && near(p.y, cy + r * std::sin(at)), "a waypoint lies on its arc with the heading there");
        if (n > 0) {
            double t = up ? at - last : last - at;
            sx_check(t >= -1e-6 && t <= step + 1e-6, "the waypoints of an arc proceed in its direction and are no further apart than allowed");
        }
        last = at;
    }
    sx_check(n >= 1 && n < 20, "an arc has a finite number of waypoints");
    sx_check(near(std::cos(last), std::cos(b)) && near(std::sin(last), std::sin(b)), "the waypoints of an arc end at its end");
    sx_reach(n > 3 ? "many" : "few");
}
// straights: any length, twelve directions; the next segment begins at the end
extern "C" void h_line_points() {
    static const int X[12] = {5, 3, 0, -4, -5, -3, 0, 4, 4, -3, -4, 3}, Y[12] = {0, 4, 5, 3, 0, -4, -5, -3, 3, 4, -3, -4};
    int k = sx_conc(sx_int("direction", 0, 11));
    bool forward = sx_fork(sx_bool("forward"));
    double d = 1.5, l = sx_real("length", 1e-3, 8), x = sx_real("x", -10, 10), y = sx_real("y", -10, 10);
    LineSegment s(forward ? CurveSegment::FORWARD : CurveSegment::BACKWARD);
    SimpleGridMap2d m(1, 1, 1.0);
    s.set_map(&m);
    s.set_max_distance(d);
    double ux = X[k] / 5.0, uy = Y[k] / 5.0;
    s.set_points(Point2d(x, y), Point2d(x + l * ux, y + l * uy));
    int n = 0;
    double last = 0;
    s.reset_iteration();
    for (; s.has_next() && n < 20; ++n) {
        Pose2d p = s.next();
        double t = (p.x - x) * ux + (p.y - y) * uy;
        sx_check(near((p.x - x) * uy, (p.y - y) * ux), "the waypoints of a straight lie on it");
        if (n == 0) sx_check(near(t, 0), "the waypoints of a straight begin at its start");
        else sx_check(t >= last && t - last <= d + 1e-6, "the waypoints of a straight proceed along it and are no further apart than allowed");
        sx_check(near(std::cos(p.theta), forward ? ux : -ux) && near(std::sin(p.theta), forward ? uy : -uy), "the heading along a straight is that of the driven direction");
        last = t;
    }
    sx_check(n < 20 && l - last <= d + 1e-6, "the end of a straight is no further from its last waypoint than allowed");
    sx_check(last <= l + 1e-6, "the waypoints of a straight do not go beyond its end");
    sx_reach(n > 3 ? "many" : "few");
}
// among obstacles: maps of free and occupied cells
static SimpleGridMap2d *field(int w, int h, bool any) {
    SimpleGridMap2d *m = new SimpleGridMap2d(w, h, 1.0);
    m->setLowerThreshold(100); m->setUpperThreshold(100); m->setNoInformationValue(-1);
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) m->setValue(x, y, any ? (sx_bool("cell") ? 255 : 0) : 0);
    return m;
}
static unsigned occupied(const SimpleGridMap2d &m, int x, int y) { return m.getValue(x, y) >> 7; }
// whether all cells (whether any cell) closer than t to a place (cell coordinates) are occupied
static unsigned walled(const SimpleGridMap2d &m, double x, double y, double t) {
    unsigned all = 1;
    for (int j = 0; j < (int)m.getHeight(); ++j) for (int i = 0; i < (int)m.getWidth(); ++i)
        if ((i - x) * (i - x) + (j - y) * (j - y) < t * t) all &= occupied(m, i, j);
    return all;
}
static unsigned touched(const SimpleGridMap2d &m, const std::vector<Pose2d> &p, double t) {
    unsigned any = 0;
    for (int j = 0; j < (int)m.getHeight(); ++j) for (int i = 0; i < (int)m.getWidth(); ++i) {
        bool close = false;
        for (size_t k = 0; k < p.size() && !close; ++k) close = (i - p[k].x) * (i - p[k].x) + (j - p[k].y) * (j - p[k].y) < t * t;
        if (close) any |= occupied(m, i, j);
    }
    return any;
}
static void costs(CurveSegment &s, const GridMap2d *m) {
    s.set_map(m); s.set_max_distance(0.5);
    s.set_cost_forwards(1); s.set_cost_backwards(2); s.set_cost_curve(1.5); s.set_cost_straight(0.75);
}
// a straight between any two cells in and around a map
#ifndef SW
#define SW 4
#define SH 4
#endif
extern "C" void h_straight() {
    SimpleGridMap2d *m = field(SW, SH, true);
    int x0 = sx_conc(sx_int("x0", -1, SW)), y0 = sx_conc(sx_int("y0", -1, SH)), x1 = sx_conc(sx_int("x1", -1, SW)), y1 = sx_conc(sx_int("y1", -1, SH));
    if (x0 == x1 && y0 == y1) return;
    LineSegment s(sx_fork(sx_bool("backwards")) ? CurveSegment::BACKWARD : CurveSegment::FORWARD);
    costs(s, m);
    s.set_points(Point2d(x0, y0), Point2d(x1, y1));
    float w = s.weight(false);
    unsigned must = 0, may = 0;
    int dx = x1 - x0, dy = y1 - y0, n = std::max(std::abs(dx), std::abs(dy));
    for (int y = 0; y < SH; ++y) for (int x = 0; x < SW; ++x) {
        // how far, in halves of a cell and n-fold, the cell is off the straight along the shorter axis
        int along = std::abs(dx) >= std::abs(dy) ? (x - x0) * (dx < 0 ? -1 : 1) : (y - y0) * (dy < 0 ? -1 : 1);
        if (along < 0 || along > n) continue;
        int off = std::abs(dx) >= std::abs(dy) ? 2 * std::abs((y - y0) * n - along * dy) : 2 * std::abs((x - x0) * n - along * dx);
        if (off < n) must |= occupied(*m, x, y);
        if (off <= n) may |= occupied(*m, x, y);
    }
    bool inside = x0 >= 0 && y0 >= 0 && x0 < SW && y0 < SH;
    if (w < NOT_FREE) {
        sx_reach("free");
        sx_check(!must, "a straight over an occupied cell is not free");
        double want = std::sqrt((double)(dx * dx + dy * dy)) * 0.75 * (s.direction() == CurveSegment::BACKWARD ? 2 : 1);
        sx_check(std::fabs(w - want) < 1e-3, "the weight of a straight is its length times its factors");
    } else {
        sx_reach("not free");
        sx_check(!inside || may, "a straight over free cells is free");
    }
    float u = s.weight(true);
    sx_check(u < NOT_FREE, "a straight is free when obstacles are ignored");
}
// an arc around a cell
static void place(CircleSegment &c, double r, double cx, double cy, double from, double to) {
    c.set_radius(r);
    Point2d centre(cx, cy);
    c.set_center(centre);
    c.set_start_angle(from); c.set_end_angle(to);
}
static std::vector<Pose2d> walk(CircleSegment &c) {
    std::vector<Pose2d> p;
    for (c.reset_iteration(); c.has_next();) p.push_back(c.next());
    return p;
}
#ifndef TURNS
#define TURNS 8
#endif
extern "C" void h_arc() {
    int r = sx_conc(sx_int("radius", 2, 4)), size = 2 * r + 3, mid = r + 1;
    SimpleGridMap2d *m = field(size, size, true);
    int a = sx_conc(sx_int("from", 0, TURNS - 1)), b = sx_conc(sx_int("to", 0, TURNS - 1));
    if (a == b) return;
    bool left = sx_fork(sx_bool("left")), forward = sx_fork(sx_bool("forward"));
    CircleSegment c(left ? CircleSegment::LEFT_CURVE : CircleSegment::RIGHT_CURVE, forward ? CurveSegment::FORWARD : CurveSegment::BACKWARD);
    costs(c, m);
    double from = a * 2 * M_PI / TURNS + 0.2, to = b * 2 * M_PI / TURNS + 0.2, sweep = (left == forward ? b - a + TURNS : a - b + TURNS) % TURNS * 2 * M_PI / TURNS;
    place(c, r, mid, mid, from, to);
    float w = c.weight(false);
    std::vector<Pose2d> p = walk(c);
    if (w < NOT_FREE) {
        sx_reach("free");
        unsigned bad = 0;
        // the outermost cells may count to the arc or not
        for (size_t k = 0; k < p.size(); ++k)
            if (k * 0.5 > 1 && (p.size() - 1 - k) * 0.5 > 1.5) bad |= walled(*m, p[k].x, p[k].y, 1);
        sx_check(!bad, "an arc over occupied cells is not free");
        sx_check(std::fabs(w - r * sweep * 1.5 * (forward ? 1 : 2)) < 1e-3, "the weight of an arc is its length times its factors");
    } else {
        sx_reach("not free");
        sx_check(touched(*m, p, 1), "an arc away from occupied cells is free");
    }
    float u = c.weight(true);
    sx_check(u < NOT_FREE, "an arc is free when obstacles are ignored");
}
// whole curves
struct Scene { const char *pattern; double sx, sy, st, gx, gy, gt; };
static const Scene SCENES[] = {
    {"LSL", 10.5, 9.25, 0.3, 22.5, 16.5, 1.4}, {"RSR", 10.5, 15.25, 0.3, 22, 11.5, -1.1}, {"LSR", 10, 8.75, 0.4, 23.5, 16.25, 0.2}, {"RSL", 9.5, 16, -0.3, 23.5, 10.5, 0.1},
    {"|RSR", 22.5, 16.5, 1.4, 10.5, 9.25, 0.3}, {"L|S|L", 10.5, 9.25, 0.3, 22.5, 16.5, 1.4}, {"RS|L", 10, 15, -0.3, 23, 12, 2.4},
    {"LRL", 15, 11, 0.5, 16.5, 15.5, 3}, {"R|L|R", 14, 13, 0.1, 17.5, 14, 1.2}, {"L|RL", 13.5, 12, 0.1, 17, 14.5, 0.8},
    {"LR|LR", 13, 13.5, 0.2, 18.5, 14.5, 0.9}, {"L|RL|R", 13.5, 13, 0.3, 19, 12, 0.4}};
#ifndef SCENE_FROM
#define SCENE_FROM 0
#define SCENE_TO 11
#endif
extern "C" void h_among() {
    const Scene &s = SCENES[sx_conc(sx_int("scene", SCENE_FROM, SCENE_TO))];
    const int W = 34, H = 27;
    SimpleGridMap2d *m = field(W, H, true), *empty = field(W, H, false);
    CurveGenerator g;
    g.set_circle_radius(3); g.set_max_waypoint_distance(0.75); g.set_cost_backwards(2);
    std::ostringstream out;
    sx_check(g.parse(s.pattern, out), "the pattern is accepted");
    Pose2d a(s.sx, s.sy, s.st), b(s.gx, s.gy, s.gt);
    Curve *f = g.find_path(a, b, empty);
    sx_check(f != 0, "there is a curve without obstacles");
    if (!f) return;
    std::vector<Pose2d> p, q;
    for (f->reset_iteration(); f->has_next();) p.push_back(f->next());
    Curve *c = g.find_path(a, b, m);
    if (c) {
        sx_reach("curve");
        unsigned bad = 0;
        for (c->reset_iteration(); c->has_next();) q.push_back(c->next());
        for (size_t k = 0; k < q.size(); ++k) bad |= walled(*m, q[k].x, q[k].y, 2.5);
        sx_check(!bad, "a curve does not lead through obstacles");
        sx_check(c->weight() >= f->weight() - 1e-3, "obstacles do not make a curve cheaper");
        sx_check(std::hypot(q.front().x - a.x, q.front().y - a.y) < 1e-3 && std::hypot(q.back().x - b.x, q.back().y - b.y) < 1e-3, "the waypoints lead from the start to the goal");
        sx_check(std::cos(q.front().theta - a.theta) > 1 - 1e-4 && std::cos(q.back().theta - b.theta) > 1 - 1e-4, "the waypoints have the headings of start and goal");
        bool apart = false;
        for (size_t k = 1; k < q.size(); ++k) apart |= std::hypot(q[k].x - q[k - 1].x, q[k].y - q[k - 1].y) > 0.75 + 1e-3;
        sx_check(!apart, "waypoints are no further apart than asked for");
    } else {
        sx_reach("no curve");
        sx_check(touched(*m, p, 2.5), "a curve away from obstacles is found");
    }
    Curve *i = g.find_path(a, b, m, true);
    sx_check(i && std::fabs(i->weight() - f->weight()) < 1e-3, "obstacles are ignored if asked for");
}
