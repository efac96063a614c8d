// Reeds-Shepp curves (ReedsShepp/Curve, GeometryHelper, CircleSegment, LineSegment): the geometry of one pattern.
#include "sx.h"
#include <cmath>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <Eigen/Core>
#define private public
#define protected public
#include <cslibs_path_planning/ReedsShepp/CurveGenerator.h>
#include <cslibs_path_planning/common/GridMap2d.h>
#undef private
#undef protected
using namespace lib_path;
// a map without a single cell: nothing of a curve is on it
struct Nowhere : public GridMap2d {
    double res;
    Nowhere(double r) : res(r) {}
    uint8_t getValue(const unsigned int, const unsigned int) const { return 0; }
    void setValue(const unsigned int, const unsigned int, const uint8_t) {}
    unsigned int getWidth() const { return 0; }
    unsigned int getHeight() const { return 0; }
    double getResolution() const { return res; }
    Point2d getOrigin() const { return Point2d(0, 0); }
    void setOrigin(const Point2d &) {}
    bool isFree(const unsigned int, const unsigned int) const { return true; }
    bool isOccupied(const unsigned int, const unsigned int) const { return false; }
    bool isNoInformation(const unsigned int, const unsigned int) const { return false; }
    bool point2cell(const double, const double, unsigned int &, unsigned int &) const { return false; }
    void cell2point(const unsigned int, const unsigned int, double &, double &) const {}
    bool isInMap(const int, const int) const { return false; }
    bool isInMap(const double, const double) const { return false; }
};
// a straight whose cells are not walked (see h_line_weight for those)
struct PlainLine : public LineSegment {
    PlainLine(DIRECTION d) : LineSegment(d) {}
    CurveSegment *clone() const { return new PlainLine(*this); }
    float weight(bool) { return (m_start - m_end).distance_to_origin() * (m_direction == BACKWARD ? m_cost_backwards : m_cost_forwards) * m_cost_straight; }
};
#ifndef COST_BACK
#define COST_BACK 2.5
#endif
#ifndef RADIUS
#define RADIUS 2.0
#endif
static bool near(double a, double b) { return sx_near(a, b, 1e-5); }
typedef CurveSegment::DIRECTION D;
typedef CircleSegment::ORIENTATION O;
static D direction() { return sx_fork(sx_bool("backwards")) ? CurveSegment::BACKWARD : CurveSegment::FORWARD; }
static O orientation() { return sx_fork(sx_bool("right")) ? CircleSegment::RIGHT_CURVE : CircleSegment::LEFT_CURVE; }
static void setup(Curve &c, const GridMap2d *m, const Pose2d &s, const Pose2d &g) {
    c.m_map = m;
    c.m_start = s; c.m_goal = g;
    c.m_ignore_obstacles = true;
    c.m_circle_radius = RADIUS; c.m_max_waypoint_distance = 8 * RADIUS;
    c.m_cost_forwards = 1; c.m_cost_backwards = COST_BACK; c.m_cost_curve = 1.5; c.m_cost_straight = 0.75;
}
// the direction from one circle to the other
static void toward(double &ux, double &uy) {
#ifdef TOWARD
    static const double Q[] = {TOWARD};
    double q = Q[sx_conc(sx_int("direction", 0, sizeof Q / sizeof *Q - 1))];
#else
    double q = sx_angle("direction");
    sx_assume(q > -3.1415926 && q < 3.1415926);
#endif
    ux = 5 * std::cos(q); uy = 5 * std::sin(q);
}
// start and goal poses whose turning circles for the given first and last arc have centres in a given direction; the
// distance of the centres and both headings are arbitrary
static void poses(O o1, O o2, Pose2d &s, Pose2d &g, double lo, double hi) {
#ifdef DISTANCES
    // some distances of the centres, in radii
    static const double L[] = {DISTANCES};
    double ux, uy, l = L[sx_conc(sx_int("distance", 0, sizeof L / sizeof *L - 1))] * RADIUS / 5;
#else
    double ux, uy, l = sx_real("distance", lo / 5, hi / 5);
#endif
    toward(ux, uy);
    double a = sx_angle("heading"), b = sx_angle("goal heading"), x = 1.5, y = -2.25;
    double f1 = o1 == CircleSegment::LEFT_CURVE ? 1 : -1, f2 = o2 == CircleSegment::LEFT_CURVE ? 1 : -1;
    // the centre lies at the radius to the left or right
    s = Pose2d(x + f1 * RADIUS * std::sin(a), y - f1 * RADIUS * std::cos(a), a);
    g = Pose2d(x + l * ux + f2 * RADIUS * std::sin(b), y + l * uy - f2 * RADIUS * std::cos(b), b);
}
// an arc passes a given place with a given heading there (any vector of that direction); at = the angle on its circle
static void passes(const CircleSegment *c, double at, double x, double y, double hx, double hy, const char *place, const char *heading) {
    double ca = std::cos(at), sa = std::sin(at), sg = c->m_orientation == CircleSegment::LEFT_CURVE ? 1 : -1;
    sx_check(near(c->m_center.x + c->m_radius * ca, x) && near(c->m_center.y + c->m_radius * sa, y), place);
    sx_check(near(ca * hx + sa * hy, 0) && sg * (ca * hy - sa * hx) > 0, heading);
}
static void begins(const CircleSegment *c, double x, double y, double hx, double hy) {
    passes(c, c->m_angle_start, x, y, hx, hy, "an arc begins where the segment before it ends", "an arc begins with the heading of the segment before it");
}
static void ends(const CircleSegment *c, double x, double y, double hx, double hy) {
    passes(c, c->m_angle_start + c->m_arc_length, x, y, hx, hy, "an arc ends where the segment behind it begins", "an arc ends with the heading of the segment behind it");
}
static double arc(const CircleSegment *c) {
    sx_check(c->m_radius == RADIUS, "every arc has the radius asked for");
    bool left = (c->m_orientation == CircleSegment::LEFT_CURVE) != (c->m_direction == CurveSegment::BACKWARD);
    double l = left ? c->m_arc_length : -c->m_arc_length;
    sx_check(l >= -1e-9 && l <= 2 * M_PI + 1e-9, "an arc turns in its own direction, at most once around");
    return l * RADIUS * 1.5 * (c->m_direction == CurveSegment::BACKWARD ? COST_BACK : 1);
}
static double apart(const Curve &c) {
    Point2d d = ((CircleSegment *)c.m_sequence.front())->m_center - ((CircleSegment *)c.m_sequence.back())->m_center;
    return d.length();
}
static void csc(O o1, D d1, D dl, O o2, D d2) {
    Nowhere m(1);
    Pose2d s, g;
    poses(o1, o2, s, g, 0.5, 40);
    Curve c;
    c.add(CircleSegment(o1, d1)); c.add(PlainLine(dl)); c.add(CircleSegment(o2, d2));
    setup(c, &m, s, g);
    double w = c.check_if_admissible();
    if (!(w < NOT_FREE)) {
        sx_reach("no curve");
        sx_check(apart(c) < 2 * RADIUS + 1e-6 || s.distance_to(g) < 2, "two circles that do not overlap are joined by a straight");
        return;
    }
    sx_check(apart(c) >= 2 * RADIUS - 1e-6 && !(s.distance_to(g) < 2), "circles that overlap are not joined by a straight");
    CircleSegment *a = (CircleSegment *)c.m_sequence[0], *b = (CircleSegment *)c.m_sequence[2];
    LineSegment *l = (LineSegment *)c.m_sequence[1];
    double dx = l->m_end.x - l->m_start.x, dy = l->m_end.y - l->m_start.y;
    sx_assume(dx * dx + dy * dy > 1e-4);
    sx_reach("curve");
    begins(a, s.x, s.y, std::cos(s.theta), std::sin(s.theta));
    double f = dl == CurveSegment::BACKWARD ? -1 : 1, hx = f * dx, hy = f * dy;
    sx_check(near(dx * std::sin(l->m_theta), dy * std::cos(l->m_theta)) && dx * std::cos(l->m_theta) + dy * std::sin(l->m_theta) >= -1e-9, "a straight is driven along its own direction");
    ends(a, l->m_start.x, l->m_start.y, hx, hy);
    begins(b, l->m_end.x, l->m_end.y, hx, hy);
    ends(b, g.x, g.y, std::cos(g.theta), std::sin(g.theta));
    double sum = arc(a) + arc(b), len = std::sqrt(dx * dx + dy * dy);
    sx_check(sx_near(w, sum + len * 0.75 * (dl == CurveSegment::BACKWARD ? COST_BACK : 1), 1e-4), "the weight of a curve adds up from its segments");
}
static O other(O o) { return o == CircleSegment::LEFT_CURVE ? CircleSegment::RIGHT_CURVE : CircleSegment::LEFT_CURVE; }
extern "C" void h_outer() { O o = orientation(); D d1 = direction(), dl = direction(), d2 = direction(); csc(o, d1, dl, o, d2); }
extern "C" void h_inner() { O o = orientation(); D d1 = direction(), dl = direction(), d2 = direction(); csc(o, d1, dl, other(o), d2); }
extern "C" void h_lsl() { csc(CircleSegment::LEFT_CURVE, CurveSegment::FORWARD, CurveSegment::FORWARD, CircleSegment::LEFT_CURVE, CurveSegment::FORWARD); }
extern "C" void h_lsr() { csc(CircleSegment::LEFT_CURVE, CurveSegment::FORWARD, CurveSegment::FORWARD, CircleSegment::RIGHT_CURVE, CurveSegment::FORWARD); }
// three or four arcs, turning alternately
static void arcs(int n, O o, const D *d) {
    Nowhere m(1);
    Pose2d s, g;
    poses(o, n == 3 ? o : other(o), s, g, 0.5, 7 * RADIUS);
    Curve c;
    for (int i = 0; i < n; ++i) c.add(CircleSegment(i % 2 ? other(o) : o, d[i]));
    setup(c, &m, s, g);
    double w = c.check_if_admissible();
    double far = (n == 3 ? 4 : 6) * RADIUS;
    if (!(w < NOT_FREE)) {
        sx_reach("no curve");
        sx_check(apart(c) < 2 + 1e-6 || apart(c) > far - 1e-6 || s.distance_to(g) < 2, "circles near enough to each other are joined by arcs");
        return;
    }
    sx_reach("curve");
    sx_check(apart(c) >= 2 - 1e-6 && apart(c) <= far + 1e-6 && !(s.distance_to(g) < 2), "circles too far apart are not joined by arcs");
    CircleSegment *a[4];
    for (int i = 0; i < n; ++i) a[i] = (CircleSegment *)c.m_sequence[i];
    passes(a[0], a[0]->m_angle_start, s.x, s.y, std::cos(s.theta), std::sin(s.theta), "the first arc begins at the start", "the first arc begins with the heading of the start");
    passes(a[n - 1], a[n - 1]->m_angle_start + a[n - 1]->m_arc_length, g.x, g.y, std::cos(g.theta), std::sin(g.theta), "the last arc ends at the goal", "the last arc ends with the heading of the goal");
    double sum = 0;
    for (int i = 0; i < n; ++i) sum += arc(a[i]);
    for (int i = 0; i + 1 < n; ++i) {
        double e = a[i]->m_angle_start + a[i]->m_arc_length, b = a[i + 1]->m_angle_start, ce = std::cos(e), se = std::sin(e), cb = std::cos(b), sb = std::sin(b);
        sx_check(near(a[i]->m_center.x + RADIUS * ce, a[i + 1]->m_center.x + RADIUS * cb) && near(a[i]->m_center.y + RADIUS * se, a[i + 1]->m_center.y + RADIUS * sb), "an arc begins where the arc before it ends");
        sx_check(near(ce, -cb) && near(se, -sb), "an arc begins with the heading of the arc before it");
    }
    sx_check(sx_near(w, sum, 1e-4), "the weight of a curve adds up from its segments");
#ifdef BEST
    // of the two symmetric curves it is the cheaper one
    for (int k = 0; k < 2; ++k) {
        CircleSegment b[4] = {*a[0], *a[1], *a[2], *a[n - 1]};
        if (n == 3) GeometryHelper::calculate_tangential_circle(b[0], b[1], b[2], k);
        else GeometryHelper::test_tangential_double_circle(b[0], b[1], b[2], b[3], k);
        double other = 0;
        for (int i = 0; i < n; ++i) other += b[i].weight(true);
        sx_check(w <= other + 1e-4, "of two symmetric curves the cheaper one is taken");
    }
#endif
}
extern "C" void h_three() { O o = orientation(); D d[3]; for (int i = 0; i < 3; ++i) d[i] = direction(); arcs(3, o, d); }
extern "C" void h_four() { O o = orientation(); D d[4]; for (int i = 0; i < 4; ++i) d[i] = direction(); arcs(4, o, d); }
extern "C" void h_lrl() { D d[3] = {CurveSegment::FORWARD, CurveSegment::FORWARD, CurveSegment::FORWARD}; arcs(3, CircleSegment::LEFT_CURVE, d); }
extern "C" void h_lrlr() { D d[4] = {CurveSegment::FORWARD, CurveSegment::FORWARD, CurveSegment::BACKWARD, CurveSegment::BACKWARD}; arcs(4, CircleSegment::LEFT_CURVE, d); }
// the choice among several patterns, all beginning and ending with left turns; the map counts in half metres
static double pattern(int k, CurveGenerator *g, const Pose2d &s, const Pose2d &e, const GridMap2d *m, double &turns) {
    static const char *P[] = {"fLfSfL", "fLbSfL", "fLfRfL", "fLbRfL", "bLbSbL"};
    Curve c;
    for (const char *p = P[k]; *p; p += 2) {
        D d = *p == 'b' ? CurveSegment::BACKWARD : CurveSegment::FORWARD;
        if (p[1] == 'S') c.add(PlainLine(d));
        else c.add(CircleSegment(p[1] == 'L' ? CircleSegment::LEFT_CURVE : CircleSegment::RIGHT_CURVE, d));
    }
    if (g) { g->m_curves.push_back(c); return 0; }
    setup(c, m, s, e);
    double w = c.check_if_admissible();
    turns = 0;
    for (size_t i = 0; i < c.m_sequence.size(); ++i)
        if (CircleSegment *a = dynamic_cast<CircleSegment *>(c.m_sequence[i])) turns += std::fabs(a->m_arc_length);
    return w;
}
#ifndef CHOICES
#define CHOICES 0, 1, 2
#endif
extern "C" void h_cheapest() {
    static const int K[] = {CHOICES};
    const int n = sizeof K / sizeof *K;
    Nowhere m(0.5);
    Pose2d s, e;
    poses(CircleSegment::LEFT_CURVE, CircleSegment::LEFT_CURVE, s, e, 0, 0);
    double limit = sx_real("limit", 0.5, 20), best = NOT_FREE, most = NOT_FREE, least = NOT_FREE, t;
    CurveGenerator g;
    g.set_circle_radius(RADIUS * 0.5); g.set_max_waypoint_distance(8 * RADIUS * 0.5);
    g.set_cost_forwards(1); g.set_cost_backwards(COST_BACK); g.set_cost_curve(1.5); g.set_cost_straight(0.75); g.set_max_curve_arc(limit);
    g.set_use_map_cost(false);
    for (int i = 0; i < n; ++i) {
        double w = pattern(K[i], NULL, s, e, &m, t);
        if (w < least) least = w;
        if (w < NOT_FREE && sx_fork(t < limit + 1e-6) && w < most) most = w;      // counting curves just at the limit or not
        if (w < NOT_FREE && sx_fork(t < limit - 1e-6) && w < best) best = w;
        pattern(K[i], &g, s, e, &m, t);
    }
    Curve *c = g.find_path(s, e, &m, true);
    if (!c) { sx_reach("no curve"); sx_check(best >= NOT_FREE, "a curve within the limit is returned"); return; }
    sx_reach("curve");
    if (least < most) sx_reach("a cheaper one is beyond the limit");
    sx_check(most < NOT_FREE, "curves beyond the limit of their arcs are not returned");
    sx_check(c->weight() <= best + 1e-4, "the cheapest of the patterns is returned");
    sx_check(c->weight() >= most - 1e-4, "the weight of a curve is that of one of the patterns");
    sx_check(c->start().x == s.x && c->start().y == s.y && c->start().theta == s.theta && c->goal().x == e.x && c->goal().y == e.y && c->goal().theta == e.theta, "a curve belongs to the poses it was asked for");
    delete c;
}
