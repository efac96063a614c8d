// A* on a grid (a_star/): path validity, completeness, history independence.
#include "sx.h"
#include <cslibs_path_planning/a_star/AStar.h>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <vector>
using namespace lib_path;

#ifndef W
#define W 3
#endif
#ifndef H
#define H 3
#endif

#ifndef VALID
#define VALID 1
#endif
#ifndef COMPLETE
#define COMPLETE 1
#endif
static const int LOWER = 50, UPPER = 200;

// cell values as solver variables; `coarse` restricts them to free/occupied
static void fill(SimpleGridMap2d &m, unsigned char *v, int w, int h, const char *name) {
    m.setLowerThreshold(LOWER);
    m.setUpperThreshold(UPPER);
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
        v[y * w + x] = sx_u8(name);
        m.setValue(x, y, v[y * w + x]);
    }
}
// reach[c] = 1 iff a chain of free cells leads from c to the goal's neighbourhood (branch free)
static unsigned reachable(const unsigned char *v, int w, int h, int sx, int sy, int gx, int gy) {
    unsigned fr[64], re[64];
    for (int i = 0; i < w * h; ++i) { fr[i] = (unsigned)(v[i] <= LOWER); re[i] = 0; }
    re[gy * w + gx] = 1;
    for (int it = 0; it < w * h; ++it)
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
            unsigned acc = 0;
            for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) {
                int nx = x + dx, ny = y + dy;
                if ((dx || dy) && nx >= 0 && ny >= 0 && nx < w && ny < h) acc |= re[ny * w + nx];
            }
            re[y * w + x] |= acc & fr[y * w + x];
        }
    return re[sy * w + sx];
}
static void check_result(AStar &a, bool found, const unsigned char *v, int w, int h, const waypoint_t &s, const waypoint_t &g) {
    path_t *p = a.getLastPath();
    bool sin = s.x >= 0 && s.y >= 0 && s.x < w && s.y < h, gin = g.x >= 0 && g.y >= 0 && g.x < w && g.y < h;
    if (!found) {
        sx_reach("no path");
        if (VALID) sx_check(p->empty(), "a failed search leaves an empty path");
        if (COMPLETE && sin && gin) sx_check(!reachable(v, w, h, s.x, s.y, g.x, g.y), "search fails although start and goal are connected through free cells");
        return;
    }
    sx_reach("path found");
    if (COMPLETE) sx_check(sin && gin, "a path is reported although start or goal lies outside the map");
    if (p->size() > 1) sx_reach("path with several cells");
    if (!VALID) return;
    sx_check(sin && gin, "a path is reported although start or goal lies outside the map");
    sx_check(!p->empty(), "a successful search yields waypoints");
    sx_check(p->front().x == s.x && p->front().y == s.y, "path begins at the start");
    sx_check(p->back().x == g.x && p->back().y == g.y, "path ends at the goal");
    sx_check((int)p->size() <= w * h, "path visits no more cells than the map has");
    for (size_t i = 0; i < p->size(); ++i) {
        waypoint_t c = (*p)[i];
        sx_check(c.x >= 0 && c.y >= 0 && c.x < w && c.y < h, "path stays inside the map");
        if (!(c.x == g.x && c.y == g.y)) sx_check(v[c.y * w + c.x] <= LOWER, "every cell of the path before the goal is free");
        if (i) {
            int dx = c.x - (*p)[i - 1].x, dy = c.y - (*p)[i - 1].y;
            sx_check(dx >= -1 && dx <= 1 && dy >= -1 && dy <= 1 && (dx || dy), "consecutive path cells are neighbours");
        }
        for (size_t j = 0; j < i; ++j) sx_check(c.x != (*p)[j].x || c.y != (*p)[j].y, "path visits no cell twice");
    }
}
static waypoint_t any_cell(const char *nx, const char *ny, int lo, int w, int h) {
    waypoint_t r;
    r.x = sx_conc(sx_int(nx, lo, w - 1 - lo));
    r.y = sx_conc(sx_int(ny, lo, h - 1 - lo));
    return r;
}

// one search on a fresh object: any map contents, any start and goal, in or just outside the map
extern "C" void h_single() {
    unsigned char v[W * H];
    SimpleGridMap2d m(W, H, 1.0);
    fill(m, v, W, H, "cell");
    waypoint_t s = any_cell("sx", "sy", 0, W, H), g = any_cell("gx", "gy", 0, W, H);
    AStar a(&m);
    bool found = a.planPath(s, g);
    check_result(a, found, v, W, H, s, g);
}
// start/goal anywhere, also far out of the map
extern "C" void h_outside() {
    unsigned char v[4];
    SimpleGridMap2d m(2, 2, 1.0);
    fill(m, v, 2, 2, "cell");
    waypoint_t s = any_cell("sx", "sy", -2, 2, 2), g = any_cell("gx", "gy", -2, 2, 2);
    AStar a(&m);
    bool found = a.planPath(s, g);
    check_result(a, found, v, 2, 2, s, g);
}
// three searches on one object: the cells change, the map is exchanged (same or other size) in between
#ifndef COARSE
#define COARSE 1
#endif
static void fill2(SimpleGridMap2d &m, unsigned char *v, int w, int h, const char *name) {
    m.setLowerThreshold(LOWER);
    m.setUpperThreshold(UPPER);
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
        v[y * w + x] = sx_bool(name) ? 255 : 0;
        m.setValue(x, y, v[y * w + x]);
    }
}
static void history(int w1, int h1, int w2, int h2) {
    unsigned char v1[16], v2[16];
    SimpleGridMap2d m1(w1, h1, 1.0), m2(w2, h2, 1.0);
    fill2(m1, v1, w1, h1, "cell");
    fill2(m2, v2, w2, h2, "new");
    AStar a(&m1);
    waypoint_t s1 = any_cell("sx", "sy", 0, w1, h1), g1 = any_cell("gx", "gy", 0, w1, h1);
    a.planPath(s1, g1);
    a.setNewMap(&m2);
    waypoint_t s2 = any_cell("tx", "ty", 0, w2, h2), g2 = any_cell("hx", "hy", 0, w2, h2);
    bool found = a.planPath(s2, g2);
    sx_reach("second search");
    check_result(a, found, v2, w2, h2, s2, g2);
    // the same request on a fresh object
    AStar b(&m2);
    bool found2 = b.planPath(s2, g2);
    sx_check(found == found2, "a used planner and a fresh one disagree whether there is a path");
    if (found && found2) {
        path_t p = *a.getLastPath(), q = *b.getLastPath();
        sx_check(p.size() == q.size(), "a used planner and a fresh one find different paths");
        for (size_t i = 0; i < p.size() && i < q.size(); ++i) sx_check(p[i].x == q[i].x && p[i].y == q[i].y, "a used planner and a fresh one find different paths");
    }
}
extern "C" void h_same_size() { history(2, 2, 2, 2); }
extern "C" void h_other_size() { history(2, 1, 1, 3); }
extern "C" void h_shrink() { history(2, 2, 2, 1); }
extern "C" void h_grow() { history(1, 2, 3, 1); }
extern "C" void h_grow2() { history(3, 1, 3, 2); }
// the same map object edited between the searches; an arbitrary first request, also a refused one
extern "C" void h_edit() {
    unsigned char v1[9], v2[9];
    SimpleGridMap2d m(W, H, 1.0);
    fill2(m, v1, W, H, "cell");
    AStar a(&m);
    waypoint_t s1 = any_cell("sx", "sy", 0, W, H), g1; g1.x = 0; g1.y = 0;
    if (sx_fork(sx_bool("refused"))) g1.x = -1;
    a.planPath(s1, g1);
    fill2(m, v2, W, H, "new");
    waypoint_t s2 = any_cell("tx", "ty", 0, W, H), g2; g2.x = W - 1; g2.y = sx_conc(sx_int("hy", 0, H - 1));
    bool found = a.planPath(s2, g2);
    sx_reach("second search");
    check_result(a, found, v2, W, H, s2, g2);
}
// three requests in a row on unchanged contents
extern "C" void h_three() {
    unsigned char v[6];
    SimpleGridMap2d m(3, 2, 1.0);
    fill2(m, v, 3, 2, "cell");
    AStar a(&m);
    for (int k = 0; k < 3; ++k) {
        waypoint_t s = any_cell("sx", "sy", 0, 3, 2), g; g.x = k == 1 ? 0 : 2; g.y = k == 2;
        bool found = a.planPath(s, g);
        check_result(a, found, v, 3, 2, s, g);
    }
    sx_reach("third search");
}

// ---- open list alone: any sequence of additions, extractions and restarts
#ifndef OPS
#define OPS 5
#endif
extern "C" void h_openlist() {
    OpenList l(3, 1);
    l.prepareNewSearch();
    double pred[3];
    for (int c = 0; c < 3; ++c) pred[c] = sx_real("prediction", 0, 0.5);
    bool open[3] = {false, false, false}, done[3] = {false, false, false};
    int best[3] = {0, 0, 0};
    Node *last = 0;
    for (int k = 0; k < OPS; ++k) {
        int op = k == 0 ? 0 : sx_conc(sx_int("op", 0, 2));   // nothing happens before the first addition
        if (op == 0) {                                   // add
            int c = sx_conc(sx_int("pos", 0, 2));
            double d = sx_real("distance", 0, 1.25);
            waypoint_t w; w.x = c; w.y = 0;
            l.addNode(w, d, pred[c], last);
            int val = (int)(d + pred[c]);                 // costs are compared as whole numbers
            if (done[c]) continue;
            if (!open[c]) { open[c] = true; best[c] = val; }
            else { sx_reach("added again"); best[c] = val < best[c] ? val : best[c]; }
        } else if (op == 1) {
            Node *n = l.getFirstNode();
            bool any = open[0] || open[1] || open[2];
            sx_check((n != 0) == any, "a cell is handed out exactly when one is open");
            if (!n) { sx_reach("exhausted"); continue; }
            int c = n->getPosition().x;
            sx_check(c >= 0 && c < 3 && n->getPosition().y == 0, "a handed out cell is one that was added");
            if (c < 0 || c > 2) return;
            sx_check(!done[c], "no cell is handed out twice in one search");
            sx_check(open[c], "a handed out cell is one that was added");
            sx_check(n->isVisited(), "a handed out cell is marked as visited");
            for (int o = 0; o < 3; ++o) if (open[o]) sx_check(best[c] <= best[o], "the cheapest open cell is handed out first");
            sx_check((int)n->getValue() == best[c], "the cost of a handed out cell is the least it was added with");
            open[c] = false; done[c] = true; last = n;
            sx_reach("handed out");
        } else {
            l.prepareNewSearch();
            for (int c = 0; c < 3; ++c) open[c] = done[c] = false;
            last = 0;
            sx_reach("restarted");
        }
    }
}
