// The sampling planner (sampling/SamplingPlanner).
#include "sx.h"
#include <iostream>
#include <sstream>
#include <vector>
#include <cslibs_path_planning/sampling/SamplingPlanner.h>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
using namespace lib_path;
#ifndef OFFERS
#define OFFERS 3
#endif
static const double OX = -3, OY = 2, RES = 0.5;
// goals in the world: ordinary ones, one behind the wall, two off the map, one next to the start
static const double GOALS[][3] = {{9, 9, 0.4}, {8, 13, 1.6}, {3, 12, 2.6}, {15, 14, 0.3}, {40, 10, 0}, {-3.2, 9, 0}, {2.9, 9.2, 0.2}};
enum { NGOALS = 7 };
struct Offer : public GoalRegion {
    int n, asked, inits, at, which[4];
    double gain[4];
    Offer() : n(0), asked(-1), inits(0), at(0) {}
    void init(unsigned k) { asked = k; ++inits; at = 0; }
    bool getNextGoal(Pose2d &g, double &f) {
        if (at >= n) { ++at; return false; }
        const double *p = GOALS[which[at]];
        g = Pose2d(p[0], p[1], p[2]);
        f = gain[at++];
        return true;
    }
};
static SimpleGridMap2d *world(bool wall) {
    SimpleGridMap2d *m = new SimpleGridMap2d(44, 32, RES);
    m->setOrigin(Point2d(OX, OY));
    m->setLowerThreshold(50); m->setUpperThreshold(200); m->setNoInformationValue(127);
    for (int y = 0; y < 32; ++y) for (int x = 0; x < 44; ++x) m->setValue(x, y, wall && x >= 31 && x <= 32 ? 255 : 0);
    return m;
}
static void settings(CurveGenerator &g) {
    std::ostringstream out;
    g.set_circle_radius(1.25); g.set_max_waypoint_distance(0.5); g.set_cost_backwards(2);
    g.parse("LSR", out); g.parse("LSL", out); g.parse("R|S|L", out);
}
static void round(SamplingPlanner &p, SimpleGridMap2d &m, int n) {
    Offer o;
    o.n = n;
    for (int i = 0; i < n; ++i) { o.which[i] = sx_conc(sx_int("goal", 0, NGOALS - 1)); o.gain[i] = sx_real("gain", 0.25, 4); }
    Pose2d s(2.5, 9, 0.1);
    Curve *c = p.createPath(s, &o, 17);
    sx_check(o.inits == 1 && o.asked == 17, "the region is started with the number of samples asked for");
    sx_check(o.at == n + 1, "every goal offered is looked at");
    double w[4];
    bool any = false, mine[4];
    for (int i = 0; i < n; ++i) {
        const double *q = GOALS[o.which[i]];
        double gx = (q[0] - OX) / RES, gy = (q[1] - OY) / RES;
        w[i] = -1; mine[i] = false;
        if (gx < 0 || gy < 0 || gx >= 44 || gy >= 32) continue;
        CurveGenerator g;
        settings(g);
        Curve *d = g.find_path(Pose2d((s.x - OX) / RES, (s.y - OY) / RES, s.theta), Pose2d(gx, gy, q[2]), &m);
        if (!d) continue;
        w[i] = d->weight(); any = true;
        static const char *const REACHED[] = {"goal 0", "goal 1", "goal 2", "behind the wall", "", "", ""};
        sx_reach(REACHED[o.which[i]]);
        if (c) {
            Pose2d e = c->goal();
            mine[i] = std::fabs(e.x - gx) < 1e-6 && std::fabs(e.y - gy) < 1e-6 && std::fabs(e.theta - q[2]) < 1e-6 && std::fabs(c->weight() - w[i]) < 1e-6;
        }
    }
    if (!c) { sx_reach("no curve"); sx_check(!any, "there is a curve if there is one to any goal offered"); return; }
    sx_reach("curve");
    bool best = false;
    for (int i = 0; i < n; ++i) if (mine[i]) {
        bool least = true;
        for (int j = 0; j < n; ++j) if (w[j] >= 0) least = least & (o.gain[i] * w[i] <= o.gain[j] * w[j] + 1e-9);
        best = best | least;
    }
    sx_check(best, "the curve leads to the goal with the least weighted cost");
}
extern "C" void h_best() {
    SimpleGridMap2d *m = world(sx_fork(sx_bool("wall")));
    CurveGenerator g;
    settings(g);
    SamplingPlanner p(&g, m);
    round(p, *m, sx_conc(sx_int("offers", 0, OFFERS)));
}
// one request after the other
extern "C" void h_best_again() {
    SimpleGridMap2d *m = world(true);
    CurveGenerator g;
    settings(g);
    SamplingPlanner p(&g, m);
    round(p, *m, 2);
    round(p, *m, 1);
    sx_reach("again");
}
extern "C" void h_off_map() {
    SimpleGridMap2d *m = world(false);
    CurveGenerator g;
    settings(g);
    SamplingPlanner p(&g, m);
    Offer o;
    o.n = 1; o.which[0] = 0; o.gain[0] = 1;
    static const double STARTS[][2] = {{-3.1, 9}, {19.2, 9}, {5, 1.9}, {5, 18.1}};
    const double *s = STARTS[sx_conc(sx_int("start", 0, 3))];
    sx_check(!p.createPath(Pose2d(s[0], s[1], 0), &o, 3), "there is no curve from off the map");
}
