// Generic search on grids (generic/): validity, optimality, repeated searches.
#include "sx.h"
#include <cstring>
#include <iostream>
#include <deque>
#include <tuple>
#include <cslibs_path_planning/generic/Algorithms.hpp>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <vector>
using namespace lib_path;
#ifndef MW
#define MW 3
#endif
#ifndef MH
#define MH 3
#endif
#ifndef NB
#define NB 8
#endif
#ifndef DIST
#define DIST 1
#endif
#ifndef ALG
#define ALG AStar2dSearch
#endif
#ifndef HEUR
#define HEUR 2          // 1: |dx|+|dy|, 2: straight line, 0: max
#endif
#ifndef VALID
#define VALID 1
#endif
#ifndef OPT
#define OPT 1
#endif
#ifndef STEPS
#define STEPS 0
#endif
typedef ALG<DirectNeighborhood<NB, DIST>, NoExpansion, Pose2d, GridMap2d, STEPS, STEPS> Algo;
typedef Algo::PathT Route;
typedef Algo::NodeT Nd;
static const int LOWER = 50, UPPER = 200;
static const double INF = 1e300;

struct World {
    int w, h;
    double res;
    SimpleGridMap2d m;
    std::vector<unsigned char> v;
    World(int w, int h, double res, const char *name, bool coarse) : w(w), h(h), res(res), m(w, h, res), v(w * h) {
        m.setLowerThreshold(LOWER); m.setUpperThreshold(UPPER);
        draw(name, coarse);
    }
    void draw(const char *name, bool coarse) {
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
            v[y * w + x] = coarse ? (unsigned char)(sx_bool(name) * 255) : sx_u8(name);
            m.setValue(x, y, v[y * w + x]);
        }
    }
    bool in(int x, int y) const { return x >= 0 && y >= 0 && x < w && y < h; }
    bool free(int x, int y) const { return v[y * w + x] <= LOWER; }
    bool occ(int x, int y) const { return v[y * w + x] >= UPPER; }
};
struct Cell { int x, y; };
static Cell cell(const char *nx, const char *ny, int lo, int w, int h) {
    Cell c;
    c.x = sx_conc(sx_int(nx, lo, w - 1 - lo));
    c.y = sx_conc(sx_int(ny, lo, h - 1 - lo));
    return c;
}
// the moves of the neighbourhood, written down independently
static double step_cost(int dx, int dy) {
    int ax = std::abs(dx), ay = std::abs(dy);
    if ((ax == DIST && ay == 0) || (ax == 0 && ay == DIST)) return DIST;
    if (NB == 8 && ax == DIST && ay == DIST) return DIST * std::sqrt(2.0);
    return -1;
}
static double estimate(const World &k, int x, int y, Cell g) {
    int dx = std::abs(x - g.x), dy = std::abs(y - g.y);
    double d = HEUR == 1 ? dx + dy : HEUR == 0 ? std::max(dx, dy) : std::sqrt((double)(dx * dx + dy * dy));
    return d * k.res;
}
static bool region(int x, int y, Cell g) { return std::abs(x - g.x) <= DIST && std::abs(y - g.y) <= DIST; }

// Shortest costs from s through free cells, exploring only what could beat `limit` (cost plus estimate).
// Cells the search under test never looked at are decided here (case split).
struct Oracle {
    std::vector<double> g;
    std::vector<char> done;
    Oracle(const World &k, Cell s, Cell goal, double limit, bool use_h) : g(k.w * k.h, INF), done(k.w * k.h, 0) {
        g[s.y * k.w + s.x] = 0;
        for (;;) {
            int b = -1;
            for (int i = 0; i < k.w * k.h; ++i) if (!done[i] && g[i] < INF && (b < 0 || g[i] < g[b])) b = i;
            if (b < 0) break;
            done[b] = 1;
            int x = b % k.w, y = b / k.w;
            if (g[b] + (use_h ? estimate(k, x, y, goal) : 0) > limit) continue;
            for (int dy = -DIST; dy <= DIST; ++dy) for (int dx = -DIST; dx <= DIST; ++dx) {
                double c = step_cost(dx, dy);
                if (c < 0 || !k.in(x + dx, y + dy)) continue;
                int n = (y + dy) * k.w + x + dx;
                double ng = g[b] + c * k.res;
                if (done[n] || ng >= g[n]) continue;
                if (ng + (use_h ? estimate(k, x + dx, y + dy, goal) : 0) > limit) continue;
                if (sx_fork(k.free(x + dx, y + dy))) g[n] = ng;
            }
        }
    }
};
static double cost_of(const World &k, const Route &p) {
    double c = 0;
    for (size_t i = 1; i < p.size(); ++i) c += step_cost((int)p[i].x - (int)p[i - 1].x, (int)p[i].y - (int)p[i - 1].y) * k.res;
    return c;
}
static void valid(const World &k, const Route &p, Cell s) {
    if (!VALID) return;
    sx_check((int)p.size() <= k.w * k.h, "a path has no more cells than the map");
    sx_check(p[0].x == s.x && p[0].y == s.y, "path begins at the start");
    sx_check(!k.occ(s.x, s.y), "no path leads out of an occupied cell");
    double d = 0;
    for (size_t i = 0; i < p.size(); ++i) {
        int x = (int)p[i].x, y = (int)p[i].y;
        sx_check(p[i].x == x && p[i].y == y && k.in(x, y), "path stays inside the map");
        if (i) {
            sx_check(k.free(x, y), "every cell of the path after the start is free");
            double c = step_cost(x - (int)p[i - 1].x, y - (int)p[i - 1].y);
            sx_check(c > 0, "consecutive path cells are joined by one move of the neighbourhood");
            d += c * k.res;
        }
        sx_check(sx_near(p[i].distance, d, 1e-9), "each cell carries the cost of the path up to it");
        for (size_t j = 0; j < i; ++j) sx_check(p[i].x != p[j].x || p[i].y != p[j].y, "path visits no cell twice");
    }
}
static const double EPS = 1e-6;
// result of a plain pose request
static void judge(const World &k, const Route &p, Cell s, Cell g) {
    if (p.empty()) {
        sx_reach("no path");
        if (!OPT) return;
        if (sx_fork(k.occ(s.x, s.y)) || sx_fork(k.occ(g.x, g.y))) return;
        Oracle o(k, s, g, INF, false);
        for (int y = 0; y < k.h; ++y) for (int x = 0; x < k.w; ++x)
            if (region(x, y, g)) sx_check(o.g[y * k.w + x] >= INF, "no path is reported although free cells lead to the goal");
        return;
    }
    sx_reach("path");
    if (p.size() > 2) sx_reach("path of several steps");
    valid(k, p, s);
    int ex = (int)p.back().x, ey = (int)p.back().y;
    if (VALID) {
        sx_check(region(ex, ey, g), "path ends within one step of the goal");
        sx_check(!k.occ(g.x, g.y), "no path leads to an occupied goal");
    }
    if (!OPT) return;
    double f = cost_of(k, p) + estimate(k, ex, ey, g);
    Oracle o(k, s, g, f - EPS, true);
    for (int y = 0; y < k.h; ++y) for (int x = 0; x < k.w; ++x)
        if (region(x, y, g)) sx_check(o.g[y * k.w + x] + estimate(k, x, y, g) >= f - EPS, "a cheaper path exists");
}
static double any_res() {
    static const double r[] = {1.0, 0.25, 0.05};
    return r[sx_conc(sx_int("resolution", 0, 2))];
}
static Pose2d pose(Cell c) { return Pose2d(c.x, c.y, 0); }
static Route plan(Algo &a, Cell s, Cell g) { return a.findPath(pose(s), pose(g)); }

extern "C" void h_single() {
    World k(MW, MH, any_res(), "cell", false);
    Cell s = cell("sx", "sy", 0, MW, MH), g = cell("gx", "gy", 0, MW, MH);
    Algo a;
    a.setMap(&k.m);
    judge(k, plan(a, s, g), s, g);
}
// across a longer map
#ifndef LW
#define LW 5
#endif
#ifndef LH
#define LH 3
#endif
extern "C" void h_long() {
    World k(LW, LH, any_res(), "cell", true);
    Cell s = {0, sx_conc(sx_int("sy", 0, LH - 1))}, g = {LW - 1, sx_conc(sx_int("gy", 0, LH - 1))};
    if (sx_fork(sx_bool("back"))) std::swap(s, g);
    Algo a;
    a.setMap(&k.m);
    judge(k, plan(a, s, g), s, g);
}
// positions inside a cell count as that cell
extern "C" void h_fraction() {
    World k(2, 2, 1.0, "cell", false);
    Cell s = cell("sx", "sy", 0, 2, 2), g = cell("gx", "gy", 0, 2, 2);
    double f[4];
    for (int i = 0; i < 4; ++i) { f[i] = sx_real("fraction", 0, 0.999); }
    Algo a;
    a.setMap(&k.m);
    judge(k, a.findPath(Pose2d(s.x + f[0], s.y + f[1], sx_real("theta", -3, 3)), Pose2d(g.x + f[2], g.y + f[3], 0)), s, g);
}
// start or goal off the map: no path, or the documented complaint
extern "C" void h_outside() {
    World k(2, 2, 1.0, "cell", false);
    Cell s = cell("sx", "sy", -2, 2, 2), g = cell("gx", "gy", -2, 2, 2);
    Algo a;
    a.setMap(&k.m);
    bool in = k.in(s.x, s.y) && k.in(g.x, g.y);
    Route p;
    try { p = plan(a, s, g); }
    catch (const OutsideMapException &) { sx_check(!in, "a request inside the map is refused"); sx_reach("refused"); return; }
    catch (const std::logic_error &) { sx_reach("refused"); if (VALID) sx_check(!in || k.occ(s.x, s.y) || k.occ(g.x, g.y), "a valid request is refused"); return; }
    sx_check(in || p.empty(), "a path is reported although start or goal lies outside the map");
    if (in) judge(k, p, s, g);
}
// continuing the search after the first solution
extern "C" void h_oversearch() {
    World k(MW, MH, 1.0, "cell", false);
    Cell s = cell("sx", "sy", 0, MW, MH), g = cell("gx", "gy", 0, MW, MH);
    static const double lim[] = {0.3, 1.2, 10};
    SearchOptions so;
    so.oversearch_distance = lim[sx_conc(sx_int("oversearch", 0, 2))];
    Algo a;
    a.setMap(&k.m);
    Route p = a.findPath(pose(s), pose(g), so);
    std::vector<Route> c = a.getPathCandidates();
    if (p.empty()) { sx_check(c.empty(), "candidates exist but no path is returned"); judge(k, p, s, g); return; }
    sx_reach("path");
    if (c.size() > 1) sx_reach("several candidates");
    valid(k, p, s);
    for (size_t i = 0; i < c.size(); ++i) {
        valid(k, c[i], s);
        sx_check(region((int)c[i].back().x, (int)c[i].back().y, g), "every candidate ends within one step of the goal");
    }
    int ex = (int)p.back().x, ey = (int)p.back().y;
    if (VALID) {
        sx_check(region(ex, ey, g), "path ends within one step of the goal");
        sx_check(!k.occ(g.x, g.y), "no path leads to an occupied goal");
    }
    if (!OPT) return;
    Oracle o(k, s, g, INF, false);
    double best = INF, ed = std::hypot(ex - g.x, ey - g.y);
    for (int y = 0; y < k.h; ++y) for (int x = 0; x < k.w; ++x)
        if (region(x, y, g)) best = std::min(best, o.g[y * k.w + x] + estimate(k, x, y, g));
    for (int y = 0; y < k.h; ++y) for (int x = 0; x < k.w; ++x)
        if (region(x, y, g) && std::hypot(x - g.x, y - g.y) < ed - EPS)
            sx_check(o.g[y * k.w + x] + estimate(k, x, y, g) >= best + so.oversearch_distance - EPS, "a solution nearer to the goal exists within the allowed extra cost");
}
// a callback accepts or rejects candidates
struct Accept {
    int *calls; const World *k; Cell s, g; int accept_at;
    bool operator()(const Route &p) { ++*calls; valid(*k, p, s); if (VALID) sx_check(region((int)p.back().x, (int)p.back().y, g), "every candidate ends within one step of the goal"); return *calls == accept_at; }
};
extern "C" void h_callback() {
    World k(2, 2, 1.0, "cell", false);
    Cell s = cell("sx", "sy", 0, 2, 2), g = cell("gx", "gy", 0, 2, 2);
    SearchOptions so;
    so.oversearch_distance = 10;
    Algo a;
    a.setMap(&k.m);
    int calls = 0;
    Accept cb = {&calls, &k, s, g, sx_conc(sx_int("accept", 1, 3))};
    a.setPathCandidateCallback(cb);
    Route p = a.findPath(pose(s), pose(g), so);
    if (p.empty()) { if (OPT) sx_check(calls == 0, "candidates exist but no path is returned"); judge(k, p, s, g); return; }
    sx_reach("path");
    if (calls == cb.accept_at) sx_reach("accepted");
    valid(k, p, s);
    if (VALID) sx_check(region((int)p.back().x, (int)p.back().y, g), "path ends within one step of the goal");
}
// a goal given by a test: any of a set of cells
struct Target {
    Algo *a; const World *k; unsigned char t[16]; Pose2d hint; bool hinted;
    const Pose2d *getHeuristicGoal() const { return hinted ? &hint : NULL; }
    bool terminate(const Nd *n) const {
        if (!sx_fork(t[(int)n->y * k->w + (int)n->x] != 0)) return false;
        a->addGoalCandidate(n, 0);
        return true;
    }
};
extern "C" void h_goaltest() {
    World k(3, 2, 1.0, "cell", false);
    Cell s = cell("sx", "sy", 0, 3, 2);
    Algo a;
    a.setMap(&k.m);
    Target t;
    t.a = &a; t.k = &k;
    for (int i = 0; i < 6; ++i) t.t[i] = sx_bool("target");
    t.hinted = sx_fork(sx_bool("hinted"));
    t.hint = Pose2d(1, 1, 0);
    Route p = a.findPath(pose(s), t);
    double f;
    if (p.empty()) {
        sx_reach("no path");
        if (!OPT || sx_fork(k.occ(s.x, s.y))) return;
        f = INF;
    } else {
        sx_reach("path");
        valid(k, p, s);
        int ex = (int)p.back().x, ey = (int)p.back().y;
        if (VALID) sx_check(t.t[ey * k.w + ex] != 0, "path ends in a cell that passes the goal test");
        f = cost_of(k, p);
    }
    if (!OPT) return;
    Oracle o(k, s, s, f - EPS, false);
    for (int i = 0; i < k.w * k.h; ++i) sx_check(o.g[i] >= f - EPS || !t.t[i], p.empty() ? "no path is reported although a target can be reached" : "a cheaper path to a target exists");
}
// periodic callback during the search
static int g_calls;
static void tick() { ++g_calls; }
extern "C" void h_intermission() {
    World k(MW, 2, 1.0, "cell", false);
    Cell s = cell("sx", "sy", 0, MW, 2), g = cell("gx", "gy", 0, MW, 2);
    Algo a;
    a.setMap(&k.m);
    g_calls = 0;
    Route p = a.findPath(pose(s), pose(g), boost::function<void()>(tick));
    sx_check(g_calls <= a.getExpansions(), "the callback is called at most once per expanded cell");
    if (STEPS == 1 && a.getExpansions() > 1) sx_check(g_calls >= a.getExpansions() - 2, "the callback is called at every step");
    judge(k, p, s, g);
}
// a time limit may end the search early, but never with a wrong path
extern "C" void h_timelimit() {
    World k(3, 2, 1.0, "cell", true);
    Cell s = cell("sx", "sy", 0, 3, 2), g = cell("gx", "gy", 0, 3, 2);
    Algo a;
    a.setMap(&k.m);
    a.setTimeLimit(1.0);
    Route p = plan(a, s, g);
    if (p.empty()) { sx_reach("no path"); return; }
    sx_reach("path");
    valid(k, p, s);
    if (VALID) sx_check(region((int)p.back().x, (int)p.back().y, g), "path ends within one step of the goal");
}

// ---- repeated requests on one object against a fresh object
#ifndef HW
#define HW 3
#endif
#ifndef FEW
#define FEW true
#endif
static void same_as_fresh(Algo &a, World &k, Cell s, Cell g) {
    Route p = plan(a, s, g);
    Algo b;
    b.setMap(&k.m);
    Route q = plan(b, s, g);
    sx_reach("second request");
    if (q.size() > 2) sx_reach("path of several steps");
    sx_check(p.empty() == q.empty(), "a later request finds a path exactly if a fresh planner does");
    if (p.empty() || q.empty()) return;
    valid(k, p, s);
    sx_check(region((int)p.back().x, (int)p.back().y, g), "path ends within one step of the goal");
    double fp = cost_of(k, p) + estimate(k, (int)p.back().x, (int)p.back().y, g), fq = cost_of(k, q) + estimate(k, (int)q.back().x, (int)q.back().y, g);
    sx_check(sx_near(fp, fq, EPS), "a later request finds a path as good as a fresh planner's");
}
static void first(Algo &a, World &k, bool few = false) {
    Cell s, g;
    if (few) { s.x = 0; s.y = 0; g.x = k.w - 1; g.y = sx_conc(sx_int("gy", 0, k.h - 1)); }
    else { s = cell("sx", "sy", 0, k.w, k.h); g = cell("gx", "gy", 0, k.w, k.h); }
    Route p = plan(a, s, g);
    if (!p.empty()) sx_reach("first path");
}
static void second(Algo &a, World &k, bool few = false) {
    Cell s = cell("sx2", "sy2", 0, few ? 1 : k.w, k.h), g = cell("gx2", "gy2", 0, k.w, k.h);
    same_as_fresh(a, k, s, g);
}
extern "C" void h_again() { World k(HW, 2, 1.0, "cell", true); Algo a; a.setMap(&k.m); first(a, k); second(a, k); }
extern "C" void h_again_set() { World k(HW, 2, 1.0, "cell", true); Algo a; a.setMap(&k.m); first(a, k); a.setMap(&k.m); second(a, k); }
extern "C" void h_edited() { World k(HW, 2, 1.0, "cell", true); Algo a; a.setMap(&k.m); first(a, k, FEW); k.draw("cell2", true); second(a, k); }
extern "C" void h_edited_set() { World k(HW, 2, 1.0, "cell", true); Algo a; a.setMap(&k.m); first(a, k, FEW); k.draw("cell2", true); a.setMap(&k.m); second(a, k); }
extern "C" void h_other() {
    static const int ws[] = {1, 2, 3, 3}, hs[] = {2, 2, 1, 2};
    World k(HW, 2, 1.0, "cell", true);
    int n = sx_conc(sx_int("size", 0, 3));
    World k2(ws[n], hs[n], sx_conc(sx_int("res", 0, 1)) ? 0.5 : 1.0, "cell2", true);
    Algo a;
    a.setMap(&k.m); first(a, k, FEW);
    a.setMap(&k2.m); second(a, k2, FEW);
}
extern "C" void h_replaced_unused() {    // a map that was set but never searched
    World k(HW, 2, 1.0, "cell", true), k2(3, 1, 1.0, "cell2", true);
    Algo a;
    a.setMap(&k2.m); a.setMap(&k.m);
    second(a, k);
}
extern "C" void h_after_oversearch() {
    World k(HW, 2, 1.0, "cell", true);
    Algo a;
    a.setMap(&k.m);
    Cell s = cell("sx", "sy", 0, k.w, k.h), g = cell("gx", "gy", 0, k.w, k.h);
    SearchOptions so;
    so.oversearch_distance = 1.2;
    Route p = a.findPath(pose(s), pose(g), so);
    if (!p.empty()) sx_reach("first path");
    second(a, k);
}
extern "C" void h_after_goaltest() {
    World k(HW, 2, 1.0, "cell", true);
    Algo a;
    a.setMap(&k.m);
    Cell s = cell("sx", "sy", 0, k.w, k.h);
    {
        Target t;
        t.a = &a; t.k = &k;
        for (int i = 0; i < 2 * HW; ++i) t.t[i] = i == 1;
        t.hinted = sx_fork(sx_bool("hinted"));
        t.hint = Pose2d(1, 1, 0);
        Route p = a.findPath(pose(s), t);
        if (!p.empty()) sx_reach("first path");
    }
    second(a, k);
}
extern "C" void h_after_refusal() {
    World k(HW, 2, 1.0, "cell", true);
    Algo a;
    a.setMap(&k.m);
    Cell s = {0, 0}, o = {9, 0};
    bool thrown = false;
    try { if (sx_fork(sx_bool("start_off"))) plan(a, o, s); else plan(a, s, o); } catch (const std::exception &) { thrown = true; }
    if (thrown) sx_reach("refused");
    second(a, k);
}
extern "C" void h_three() {
    World k(2, 2, 1.0, "cell", true);
    Algo a;
    a.setMap(&k.m);
    Cell s = {0, 0}, g = {1, 1}, t = {1, 0};
    plan(a, s, g); plan(a, g, sx_fork(sx_bool("x")) ? s : t);
    second(a, k);
}
