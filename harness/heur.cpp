// Estimates of the remaining costs (generic/Heuristics.hpp).
#include "sx.h"
#include <cstring>
#include <iostream>
#include <deque>
#include <tuple>
#include <limits>
#include <vector>
#include <cslibs_path_planning/generic/Algorithms.hpp>
#include <cslibs_path_planning/generic/SteeringNeighborhood.hpp>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
using namespace lib_path;
#ifndef HM
#define HM 4
#endif
#ifndef HN
#define HN 3
#endif
#ifndef PW
#define PW 3
#endif
#ifndef PH
#define PH 2
#endif
typedef AStar2dSearch<DirectNeighborhood<8, 1> >::NodeT GN;
typedef GridMapManager<GN> Grid;

// ---- closed forms
struct Two { GN a, b, g; double dx, dy, ex, ey, res; };
static void setup(Two &t, bool whole) {
    auto coord = [&](const char *n) { return whole ? (double)sx_int(n, -20, 20) : sx_real(n, -20, 20); };
    GN::init(t.a, 0, 0); GN::init(t.b, 0, 0); GN::init(t.g, 0, 0);
    t.a.x = coord("x"); t.a.y = coord("y"); t.g.x = coord("goalx"); t.g.y = coord("goaly");
    t.res = sx_real("resolution", 0.01, 2);
    t.dx = t.a.x - t.g.x; t.dy = t.a.y - t.g.y;
}
template <class H> static double est(GN &n, const GN &g, double res) {
    n.h = -1;
    H::compute(&n, &g, res);
    return n.h;
}
static double mag(double v) { return sx_fork(v < 0) ? -v : v; }
extern "C" void h_l2() {
    Two t; setup(t, false);
    double h = est<HeuristicL2>(t.a, t.g, t.res);
    sx_check(h >= 0, "the straight-line estimate is not negative");
    sx_check(sx_near(h * h, t.res * t.res * (t.dx * t.dx + t.dy * t.dy), 1e-9), "the straight-line estimate is the length of the straight line");
    sx_check(est<HeuristicL2>(t.g, t.g, t.res) == 0, "the estimate at the goal is zero");
    sx_check(sx_near(est<HeuristicL2>(t.g, t.a, t.res), h, 1e-9), "the estimate is symmetric");
    sx_check(t.a.distance == INFINITY && !t.a.prev, "estimating changes only the estimate");
}
extern "C" void h_dl2() {
    typedef DHeuristicNode<Pose2d> DN;
    DN a, g; DN::init(a, 0, 0); DN::init(g, 0, 0);
    a.x = sx_real("x", -20, 20); a.y = sx_real("y", -20, 20); g.x = sx_real("goalx", -20, 20); g.y = sx_real("goaly", -20, 20);
    double res = sx_real("resolution", 0.01, 2);
    DHeuristicL2::compute(&a, &g, res);
    double dx = a.x - g.x, dy = a.y - g.y;
    sx_check(a.h >= 0, "the straight-line estimate is not negative");
    sx_check(sx_near(a.h * a.h, res * res * (dx * dx + dy * dy), 1e-9), "the straight-line estimate is the length of the straight line");
}
extern "C" void h_l1() {
    Two t; setup(t, false);
    double h = est<HeuristicL1>(t.a, t.g, t.res);
    sx_check(sx_near(h, t.res * (mag(t.dx) + mag(t.dy)), 1e-9), "the Manhattan estimate is the sum of the coordinate differences");
    sx_check(h >= 0, "the Manhattan estimate is not negative");
    sx_check(est<HeuristicL1>(t.g, t.g, t.res) == 0, "the estimate at the goal is zero");
}
extern "C" void h_linf() {
    Two t; setup(t, false);
    double h = est<HeuristicLInf>(t.a, t.g, t.res), x = mag(t.dx), y = mag(t.dy);
    sx_check(sx_near(h, t.res * (sx_fork(x > y) ? x : y), 1e-9), "the maximum estimate is the larger coordinate difference");
    sx_check(h >= 0, "the maximum estimate is not negative");
    sx_check(est<HeuristicLInf>(t.g, t.g, t.res) == 0, "the estimate at the goal is zero");
}
// one move never lowers the estimate by more than it costs: hence no estimate exceeds the cost of any path
static const double SQ2 = 1.4142135623730951;
template <class H> static void moves(bool diag) {
    Two t; setup(t, false);
    static const int mx[] = {1, -1, 0, 0, 1, 1, -1, -1}, my[] = {0, 0, 1, -1, 1, -1, 1, -1};
    int k = sx_conc(sx_int("move", 0, diag ? 7 : 3));
    t.b.x = t.a.x + mx[k]; t.b.y = t.a.y + my[k];
    double cost = (k < 4 ? 1 : SQ2) * t.res;
    double ha = est<H>(t.a, t.g, t.res), hb = est<H>(t.b, t.g, t.res);
    sx_check(ha <= cost + hb + 1e-7, "a move lowers the estimate by no more than it costs");
}
extern "C" void h_move_l1() { moves<HeuristicL1>(false); }
extern "C" void h_move_linf() { moves<HeuristicLInf>(true); }
extern "C" void h_move_l2() { moves<HeuristicL2>(true); }
extern "C" void h_max() {
    Two t; setup(t, false);
    double a = est<HeuristicL1>(t.a, t.g, t.res), b = est<HeuristicLInf>(t.a, t.g, t.res);
    typedef MaxHeuristic<HeuristicL1, HeuristicLInf> M1;
    typedef MaxHeuristic<HeuristicLInf, HeuristicL1> M2;
    double big = sx_fork(a > b) ? a : b;
    sx_check(sx_near(est<M1>(t.a, t.g, t.res), big, 1e-9) && sx_near(est<M2>(t.a, t.g, t.res), big, 1e-9), "the combined estimate is the larger of both");
}
// ---- around obstacles
static const double INF = 1e300;
struct Field {
    int w, h, pad;
    std::vector<char> occ;                     // -1 undecided
    Field(int w, int h, int pad) : w(w), h(h), pad(pad), occ(w * h) { for (auto &o : occ) o = sx_fork(sx_bool("occupied")); }
    bool blocked(int x, int y) const { return x >= 0 && y >= 0 && x < w && y < h && occ[y * w + x]; }
    bool inside(int x, int y) const { return x >= -pad && y >= -pad && x < w + pad && y < h + pad; }
    // shortest costs to the goal over all cells of the map and its border
    std::vector<double> dist(int gx, int gy) const {
        int W = w + 2 * pad, H = h + 2 * pad;
        std::vector<double> d(W * H, INF);
        std::vector<char> done(W * H, 0);
        d[(gy + pad) * W + gx + pad] = 0;
        for (;;) {
            int b = -1;
            for (int i = 0; i < W * H; ++i) if (!done[i] && d[i] < INF && (b < 0 || d[i] < d[b])) b = i;
            if (b < 0) return d;
            done[b] = 1;
            for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) {
                int x = b % W + dx, y = b / W + dy;
                if (x < 0 || y < 0 || x >= W || y >= H || blocked(x - pad, y - pad)) continue;
                double c = d[b] + (dx && dy ? SQ2 : 1);
                if (c < d[y * W + x]) d[y * W + x] = c;
            }
        }
    }
};
template <class H, class N> static void compare(const Field &k, int gx, int gy, double res, bool with_l2) {
    std::vector<double> d = k.dist(gx, gy);
    N n, g; N::init(n, 0, 0); N::init(g, gx, gy);
    int W = k.w + 2 * k.pad;
    for (int y = -k.pad; y < k.h + k.pad; ++y) for (int x = -k.pad; x < k.w + k.pad; ++x) {
        if (k.blocked(x, y)) continue;
        double want = d[(y + k.pad) * W + x + k.pad];
        n.x = x; n.y = y; n.h = -1;
        H::compute(&n, &g, res);
        sx_check(n.h >= 0, "the estimate around obstacles is not negative");
        double l2 = with_l2 ? std::hypot((double)x - gx, (double)y - gy) * res : 0;
        if (want >= INF) { sx_check(n.h == l2 || n.h >= want, "cells without a way to the goal fall back to no estimate"); sx_reach("cut off"); continue; }
        sx_check(n.h <= want * res + 1e-9, "the estimate never exceeds the shortest way around the obstacles");
        sx_check(n.h >= want * res - 1e-9, "the estimate is the shortest way around the obstacles");
        if (want * res > std::hypot((double)x - gx, (double)y - gy) * res + 1e-9) sx_reach("detour");
    }
    n.x = gx; n.y = gy;
    H::compute(&n, &g, res);
    sx_check(n.h == 0, "the estimate at the goal is zero");
}
static void grid_field(int w, int h) {
    Field k(w, h, 0);
    SimpleGridMap2d m(w, h, 0.5);
    m.setLowerThreshold(50); m.setUpperThreshold(200);
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) m.setValue(x, y, k.occ[y * w + x] ? 255 : 0);
    Grid g;
    g.setMap(&m);
    int gx = sx_conc(sx_int("goalx", 0, w - 1)), gy = sx_conc(sx_int("goaly", 0, h - 1));
    if (k.blocked(gx, gy)) return;
    GN goal; GN::init(goal, gx, gy);
    if (sx_fork(sx_bool("combined"))) {
        typedef MaxHeuristic<HeuristicL2, HeuristicHolonomicObstacles> M;
        M::setMap(&g, goal);
        compare<M, GN>(k, gx, gy, 0.5, true);
    } else {
        HeuristicHolonomicObstacles::setMap(&g, goal);
        compare<HeuristicHolonomicObstacles, GN>(k, gx, gy, 0.5, false);
    }
}
extern "C" void h_around() { grid_field(HM, HN); }
extern "C" void h_narrow() { grid_field(7, 1); }
// a map inside a border, as the planners with headings use it
struct Bordered {
    const Field *k;
    int padding; unsigned w, h;
    bool isOccupied(int x, int y, double) const { return k->blocked(x, y); }
};
extern "C" void h_border() {
    int pad = sx_conc(sx_int("padding", 1, 2));
    Field k(PW, PH, pad);
    Bordered m = {&k, pad, (unsigned)PW, (unsigned)PH};
    int gx = sx_conc(sx_int("goalx", -pad, PW - 1 + pad)), gy = sx_conc(sx_int("goaly", -pad, PH - 1 + pad));
    if (k.blocked(gx, gy)) return;
    GN goal; GN::init(goal, gx, gy);
    HeuristicHolonomicObstacles::setMap(&m, goal);
    compare<HeuristicHolonomicObstacles, GN>(k, gx, gy, 0.25, false);
}
// the real lazily allocated manager
extern "C" void h_dynamic() {
    typedef AStarDynamicSearch<SteeringNeighborhood<40, 2, 15, 60, 120> >::NodeT SN;
    Field k(3, 1, 32);
    SimpleGridMap2d m(3, 1, 0.5);
    m.setLowerThreshold(50); m.setUpperThreshold(200);
    for (int x = 0; x < 3; ++x) m.setValue(x, 0, k.occ[x] ? 255 : 0);
    DynamicDirectionalStateSpaceManager<SN> d;
    d.theta_slots = 1;
    d.setMap(&m);
    int gx = sx_conc(sx_int("goalx", 0, 2)), gy = 0;
    if (k.blocked(gx, gy)) return;
    GN goal; GN::init(goal, gx, gy);
    HeuristicHolonomicObstacles::setMap(&d, goal);
    GN n; GN::init(n, 0, 0);
    for (int x = -3; x < 6; ++x) for (int y = -3; y < 4; ++y) {
        if (k.blocked(x, y)) continue;
        n.x = x; n.y = y; n.h = -1;
        HeuristicHolonomicObstacles::compute(&n, &goal, 0.5);
        int dx = std::abs(x - gx), dy = std::abs(y - gy);
        double open = std::max(dx, dy) + (SQ2 - 1) * std::min(dx, dy);
        sx_check(n.h >= 0.5 * open - 1e-9, "the estimate is at least the way without obstacles");
        bool wall = false;
        for (int i = 0; i < 3; ++i) wall |= k.occ[i] != 0;
        if (!wall) sx_check(n.h <= 0.5 * open + 1e-9, "the estimate without obstacles is the shortest way");
        else sx_check(n.h <= 0.5 * (open + 2) + 1e-9, "the estimate takes the short way around a wall of three cells");
    }
    // the obstacle between: going around costs a diagonal each way
    n.x = gx + 2; n.y = 0;
    HeuristicHolonomicObstacles::compute(&n, &goal, 0.5);
    if (gx == 0 && k.occ[1] && !k.occ[2]) { sx_check(sx_near(n.h, 0.5 * 2 * SQ2, 1e-9), "the estimate leads around an obstacle"); sx_reach("around"); }
}
// a later map replaces an earlier one
extern "C" void h_twice() {
    Field k1(3, 2, 0), k2(2, 3, 0);
    auto load = [](const Field &k, SimpleGridMap2d &m) { m.setLowerThreshold(50); m.setUpperThreshold(200); for (int y = 0; y < k.h; ++y) for (int x = 0; x < k.w; ++x) m.setValue(x, y, k.occ[y * k.w + x] ? 255 : 0); };
    SimpleGridMap2d m1(3, 2, 0.5), m2(2, 3, 0.5);
    load(k1, m1); load(k2, m2);
    Grid a, b; a.setMap(&m1); b.setMap(&m2);
    GN goal; GN::init(goal, 0, 0);
    HeuristicHolonomicObstacles::setMap(&a, goal);
    int gx = sx_conc(sx_int("goalx", 0, 1)), gy = sx_conc(sx_int("goaly", 0, 2));
    if (k2.blocked(gx, gy)) return;
    GN::init(goal, gx, gy);
    HeuristicHolonomicObstacles::setMap(&b, goal);
    compare<HeuristicHolonomicObstacles, GN>(k2, gx, gy, 1.0, false);
}
