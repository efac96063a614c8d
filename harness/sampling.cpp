// Goal regions (sampling/RingGoalRegion, CentroidRadiusGoalRegion).
#include "sx.h"
#include <cslibs_path_planning/sampling/RingGoalRegion.h>
#include <cslibs_path_planning/sampling/CentroidRadiusGoalRegion.h>
using namespace lib_path;
static bool near(double a, double b) { return sx_near(a, b, 1e-9); }
static bool same_direction(double a, double b) { return near(std::cos(a), std::cos(b)) && near(std::sin(a), std::sin(b)); }
#ifndef MAXN
#define MAXN 4
#endif
// one pass over a ring
static void ring(RingGoalRegion &r, int n, double cx, double cy, double radius, double width, int taken) {
    for (int i = 0; i < taken; ++i) {
        Pose2d g;
        double gain = 1.25;
        bool more = r.getNextGoal(g, gain);
        sx_check(more == (i < n), "a region offers exactly as many goals as asked for");
        if (!more) { sx_reach("exhausted"); continue; }
        sx_reach("goal");
        double dx = g.x - cx, dy = g.y - cy;
        double a = i * (2 * M_PI / n), d = dx * std::cos(a) + dy * std::sin(a), R = std::fabs(radius);
        sx_check(near(dy * std::cos(a) - dx * std::sin(a), 0), "the goals are spread evenly around the centre");
        sx_check(d >= R - std::fabs(width) / 2 - 1e-9 && d <= R + std::fabs(width) / 2 + 1e-9, "a goal lies within the ring");
        sx_check(same_direction(g.theta, a + (radius < 0 ? -M_PI / 2 : M_PI / 2)), "goals point along the ring in the direction asked for");
        sx_check(g.theta >= -M_PI - 1e-9 && g.theta <= M_PI + 1e-9, "the heading of a goal is normalised");
        sx_check(gain >= 1 && gain <= 2, "gains stay between one and two");
    }
}
extern "C" void h_ring() {
    double cx = sx_real("cx", -50, 50), cy = sx_real("cy", -50, 50), radius = sx_real("radius", -20, 20), width = sx_real("width", 0, 5);
    RingGoalRegion r(Point2d(cx, cy), radius, width);
    int n = sx_conc(sx_int("count", 0, MAXN));
    r.init(n);
    ring(r, n, cx, cy, radius, width, n + 2);
}
// starting again, also in the middle and with another number of goals
extern "C" void h_ring_again() {
    double cx = 3.5, cy = -2, radius = sx_fork(sx_bool("clockwise")) ? -4 : 4, width = 1;
    RingGoalRegion r(Point2d(cx, cy), radius, width);
    for (int round = 0; round < 2; ++round) {
        int n = sx_conc(sx_int("count", 1, 3)), taken = sx_conc(sx_int("taken", 0, n + 1));
        r.init(n);
        ring(r, n, cx, cy, radius, width, round ? n + 2 : taken);
    }
    sx_reach("again");
}
// one pass over the goals around a centre, approached from src
static void centroid(CentroidRadiusGoalRegion &c, double sx, double sy, double cx, double cy, double radius, double angle, int n, int taken) {
    double direct = std::atan2(cy - sy, cx - sx), last = 0;
    double A = std::fabs(angle);
    int m = A < 1e-6 || n <= 1 ? 1 : n;
    int turned = 0;
    for (int i = 0; i < taken; ++i) {
        Pose2d g;
        double gain = -1;
        bool more = c.getNextGoal(g, gain);
        sx_check(more == (i < m), "a region offers exactly as many goals as asked for");
        if (!more) { sx_reach("exhausted"); continue; }
        sx_reach("goal");
        double want = m == 1 ? direct : direct - A / 2 + i * (A / (m - 1));
        sx_check(same_direction(g.theta, want), "the approaches are spread evenly over the angle around the direct one");
        sx_check(near(g.x + radius * std::cos(g.theta), cx) && near(g.y + radius * std::sin(g.theta), cy), "a goal lies at the radius from the centre and points at it");
        sx_check(gain >= 1 && gain <= 2, "gains stay between one and two");
        if (2 * i + 1 == m) { sx_check(gain == 1, "the direct approach has gain one"); sx_reach("direct"); }
        if (i > 0) {
            if (gain > last) turned = 1;
            sx_check(!(turned && gain < last), "gains fall towards the direct approach and rise behind it");
        }
        last = gain;
    }
}
extern "C" void h_centroid() {
    double sx = sx_real("sx", -20, 20), sy = sx_real("sy", -20, 20), cx = sx_real("cx", -20, 20), cy = sx_real("cy", -20, 20), radius = sx_real("radius", 0, 10);
    static const double ANGLES[] = {0, 0.5, 1.5707963, -3, 6};
    double angle = ANGLES[sx_conc(sx_int("angle", 0, 4))];
    CentroidRadiusGoalRegion c(Point2d(sx, sy), Point2d(cx, cy), radius, angle);
    int n = sx_conc(sx_int("count", 1, MAXN));
    c.init(n);
    centroid(c, sx, sy, cx, cy, radius, angle, n, n + 2);
}
extern "C" void h_centroid_again() {
    double sx = -1, sy = 2, cx = 4, cy = -3, radius = 2, angle = sx_fork(sx_bool("narrow")) ? 0 : -1.25;
    CentroidRadiusGoalRegion c(Point2d(sx, sy), Point2d(cx, cy), radius, angle);
    for (int round = 0; round < 2; ++round) {
        int n = sx_conc(sx_int("count", 1, 5)), taken = sx_conc(sx_int("taken", 0, n + 1));
        c.init(n);
        centroid(c, sx, sy, cx, cy, radius, angle, n, round ? n + 2 : taken);
    }
    sx_reach("again");
}
