// Node storage and queues of the generic search (generic/MapManager.hpp, NodeManager.hpp, Common.hpp).
#include "sx.h"
#include <cstring>
#include <iostream>
#include <deque>
#include <tuple>
#include <limits>
#include <cslibs_path_planning/generic/Algorithms.hpp>
#include <cslibs_path_planning/generic/SteeringNeighborhood.hpp>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <vector>
using namespace lib_path;
#ifndef GW
#define GW 3
#endif
#ifndef GH
#define GH 2
#endif
#ifndef DW
#define DW 3
#endif
#ifndef DH
#define DH 2
#endif
#ifndef OPS
#define OPS 4
#endif
typedef AStarDynamicSearch<SteeringNeighborhood<40, 2, 15, 60, 120> > Algo;
typedef Algo::NodeT SN;
typedef DynamicDirectionalStateSpaceManager<SN> Dyn;
typedef AStar2dSearch<DirectNeighborhood<8, 1> >::NodeT GN;
typedef GridMapManager<GN> Grid;
typedef DirectionalStateSpaceManager<SN> Dir;
static const int PAD = 32;

struct State { int x, y; unsigned t; bool f; };
static State state(const char *nx, const char *ny, int lo, int w, int h, unsigned slots) {
    State s;
    s.x = sx_int(nx, lo, w - 1 - lo);
    s.y = sx_int(ny, lo, h - 1 - lo);
    s.t = sx_int("slot", 0, slots - 1);
    s.f = sx_bool("forward");
    return s;
}
static bool same(const State &a, const State &b) { return (a.x == b.x) & (a.y == b.y) & (a.t == b.t) & (a.f == b.f); }
static bool in(int x, int y, int w, int h, int pad) { return (x >= -pad) & (y >= -pad) & (x < w + pad) & (y < h + pad); }
template <class F> static auto attempt(F f, bool &ok) -> decltype(f()) {
    ok = true;
    try { return f(); } catch (const OutsideMapException &) { ok = false; return nullptr; }
}

// ---- lazily allocated chunks
static Dyn *dyn(const GridMap2d *m, unsigned slots = 2) {
    Dyn *d = new Dyn;
    d->theta_slots = slots;
    d->setMap(m);
    return d;
}
extern "C" void h_dyn() {
    SimpleGridMap2d m(DW, DH, 0.1);
    Dyn &d = *dyn(&m);
    State a = state("x", "y", -PAD - 3, DW, DH, 2), b = state("x", "y", -PAD - 3, DW, DH, 2);
    int steer = sx_int("steer", -60, 60);
    bool ia = sx_fork(in(a.x, a.y, DW, DH, PAD)), ib = sx_fork(in(b.x, b.y, DW, DH, PAD));
    sx_check(d.contains(a.x, a.y) == ia, "contains() agrees with the extent of the map and its border");
    bool oka, okb, okc;
    SN *p = attempt([&] { return d.lookup(a.x, a.y, a.t, steer, a.f); }, oka);
    sx_check(oka == ia, "a state can be looked up exactly when it is on the map or its border");
    SN *q = attempt([&] { return d.lookup(b.x, b.y, b.t, 0, b.f); }, okb);
    sx_check(okb == ib, "a state can be looked up exactly when it is on the map or its border (2)");
    if (!oka || !okb) { sx_reach("outside"); return; }
    sx_reach("both inside");
    sx_check((p == q) == same(a, b), "two states share a node exactly when they are the same");
    SN *r = attempt([&] { return d.lookup(a.x, a.y, a.t, 0, a.f); }, okc);
    sx_check(okc && r == p, "looking up the same state again gives the same node");
}
// contents of fresh nodes, whichever chunk they live in
extern "C" void h_dyn_nodes() {
    SimpleGridMap2d m(DW, DH, 0.1);
    Dyn &d = *dyn(&m);
    static const int off[] = {0, 1, 17, 31};
    int cx = sx_conc(sx_int("cx", -1, (DW + PAD - 1) / 32)), cy = sx_conc(sx_int("cy", -1, (DH + PAD - 1) / 32));
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (unsigned t = 0; t < 2; ++t) for (int f = 0; f < 2; ++f) {
        int x = 32 * cx + off[i], y = 32 * cy + off[j];
        if (!in(x, y, DW, DH, PAD)) continue;
        SN *p = d.lookup(x, y, t, 0, f != 0);
        sx_check(p->x == x && p->y == y, "the node of a state carries its coordinates");
        sx_check(!p->isMarked(SN::MARK_OPEN) && !p->isMarked(SN::MARK_CLOSED) && !p->isMarked(SN::MARK_EXPANDED) && !p->prev && p->distance == INFINITY, "a fresh node carries no marks, no costs and no predecessor");
        sx_check(p->custom == 0 && p->depth == 0 && p->steering_angle == 0, "a fresh node carries no commands");
    }
    sx_reach("looked up");
}
extern "C" void h_dyn_reset() {
    SimpleGridMap2d m(DW, DH, 0.1), m2(2, 50, 0.2);
    Dyn &d = *dyn(&m);
    static const int xs[] = {-32, -1, 0, 1}, ys[] = {-32, -17, 0, 31, DH + 31};
    int x = xs[sx_conc(sx_int("x", 0, 3))], y = ys[sx_conc(sx_int("y", 0, 4))];
    unsigned t = sx_conc(sx_int("slot", 0, 1)); bool f = sx_fork(sx_bool("forward"));
    SN *p = d.lookup(x, y, t, 0, f);
    p->mark(SN::MARK_OPEN); p->mark(SN::MARK_CLOSED); p->distance = 3; p->x += 0.5; p->custom = 2; p->prev = p;
    sx_check(d.lookup(x, y, t, 0, f)->distance == 3, "a node keeps what was stored in it");
    sx_check(d.hasNode(x, y, t, f), "a state that was looked up is present");
    switch (sx_conc(sx_int("how", 0, 2))) {
    case 0: d.initMap(false); break;
    case 1: d.setMap(&m); break;
    default: d.setMap(&m2);
    }
    sx_check(!d.hasNode(x, y, t, f), "a state that was never created is not present");
    p = d.lookup(x, y, t, 0, f);
    sx_check(!p->isMarked(SN::MARK_OPEN) && !p->isMarked(SN::MARK_CLOSED) && p->distance == INFINITY && p->x == x && p->y == y && p->custom == 0 && !p->prev, "starting anew forgets marks, costs and positions");
    sx_reach("anew");
}
extern "C" void h_dyn_present() {
    SimpleGridMap2d m(DW, DH, 0.1);
    Dyn &d = *dyn(&m);
    State a = state("x", "y", -PAD, DW, DH, 2), b = state("x", "y", -PAD, DW, DH, 2);
    d.lookup(a.x, a.y, a.t, 0, a.f);
    sx_check(d.hasNode(a.x, a.y, a.t, a.f), "a state that was looked up is present");
    // nodes are created in blocks of 32x32 cells
    if (((a.x + 32) >> 5) != ((b.x + 32) >> 5) || ((a.y + 32) >> 5) != ((b.y + 32) >> 5)) {
        sx_check(!d.hasNode(b.x, b.y, b.t, b.f), "a state far from all created ones is not present");
        sx_reach("absent");
    }
}
// continuous positions and headings
static const double TWO_PI = 2 * M_PI;
static double circular(double a, double b) {            // distance of headings, both in [-pi,3pi]
    double d = std::fabs(a - b);
    if (d > TWO_PI) d -= TWO_PI;
    return std::min(d, TWO_PI - d);
}
extern "C" void h_dyn_pose() {
    SimpleGridMap2d m(3, 2, 0.1);
    Dyn &d = *dyn(&m, 4);
    static const int xs[] = {-33, -32, -1, 0, 2, 3, 31, 34, 35}, ys[] = {-33, -32, -1, 0, 1, 2, 32, 33, 34};
    int cx = xs[sx_conc(sx_int("cellx", 0, 8))], cy = ys[sx_conc(sx_int("celly", 0, 8))];
    double x = cx + sx_real("fraction", 0, 0.999999), y = cy + sx_real("fraction", 0, 0.999999);
    bool f = sx_bool("forward"), ok, inside = in(cx, cy, 3, 2, PAD);
    sx_check(d.contains(x, y) == inside, "contains() agrees with the extent of the map and its border");
    SN *p = attempt([&] { return d.lookup(x, y, 2.0, 7, f); }, ok);
    sx_check(ok == inside, "a position can be looked up exactly when it is on the map or its border");
    if (!ok) { sx_reach("outside"); return; }
    sx_check(p == d.lookup(cx, cy, 2.0, 0, f), "a position belongs to the node of the cell around it");
    sx_reach("inside");
}
static unsigned slot(Dyn &d, SN *p, unsigned slots) {     // case split
    for (unsigned t = 0; t < slots; ++t) if (sx_fork(p == d.lookup(1, 1, t, 0, true))) return t;
    sx_fail("every heading has a bucket");
    return 0;
}
extern "C" void h_dyn_heading() {
    SimpleGridMap2d m(3, 2, 0.1);
    const unsigned slots = 5;
    Dyn &d = *dyn(&m, slots);
    double a = sx_real("heading", -3.14159265358979, 3.14159265358979), b = sx_real("heading", -3.14159265358979, 3.14159265358979);
    unsigned p = slot(d, d.lookup(1, 1, a, 0, true), slots), q = slot(d, d.lookup(1, 1, b, 0, true), slots);
    if (sx_fork(circular(a, b) > TWO_PI / (slots - 1))) { sx_reach("different"); sx_check(p != q, "headings further apart than one bucket have different nodes"); }
    if (sx_fork(a == b)) { sx_reach("same"); sx_check(p == q, "the same heading has the same node"); }
    // buckets are intervals: a heading between two of one bucket belongs to it
    if (p == q && sx_fork(a < b)) {
        double between = sx_real("between", -3.2, 3.2);
        sx_assume(a <= between); sx_assume(between <= b);
        sx_check(d.lookup(1, 1, between, 0, true) == d.lookup(1, 1, p, 0, true), "headings between two of one bucket belong to it");
        sx_reach("between");
    }
}
extern "C" void h_dyn_turned() {
    SimpleGridMap2d m(3, 2, 0.1);
    const unsigned slots = 5;
    Dyn &d = *dyn(&m, slots);
    double a = sx_real("heading", -3.14159265358979, 3.14159265358979);
    unsigned p = slot(d, d.lookup(1, 1, a, 0, true), slots);
    int k = sx_conc(sx_int("turns", -2, 2));
    sx_check(d.lookup(1, 1, a + k * TWO_PI, 0, true) == d.lookup(1, 1, p, 0, true), "the same heading has the same node, however often it is turned");
}
// start and goal nodes of a pose
extern "C" void h_dyn_start() {
    SimpleGridMap2d m(3, 2, 0.1);
    Dyn &d = *dyn(&m, 4);
    double x = sx_real("px", 0, 2.99), y = sx_real("py", 0, 1.99), t = sx_real("heading", -M_PI, M_PI);
    Pose2d pose(x, y, t);
    std::vector<SN *> s;
    auto all = SN::getPoses(d, pose);
    sx_check(all.size() == 2, "a pose has one node per driving direction");
    bool fwd = false, bwd = false;
    for (auto *n : all) {
        (n->forward ? fwd : bwd) = true;
        sx_check(n == d.lookup(x, y, t, 0, n->forward), "a pose is filed under its own cell and heading");
    }
    sx_check(fwd && bwd, "one forward and one backward node");
}
// ---- row-major grid
extern "C" void h_grid() {
    SimpleGridMap2d m(GW, GH, 0.1);
    Grid g;
    g.setMap(&m);
    int ax = sx_int("x", -3, GW + 2), ay = sx_int("y", -3, GH + 2), bx = sx_int("x", 0, GW - 1), by = sx_int("y", 0, GH - 1);
    bool ia = sx_fork(in(ax, ay, GW, GH, 0)), ok, ok2;
    sx_check(g.contains(ax, ay) == ia, "contains() agrees with the extent of the map");
    sx_check(g.hasNode(ax, ay, 0, true) == ia, "hasNode() agrees with the extent of the map");
    GN *p = attempt([&] { return g.lookup(ax, ay); }, ok);
    sx_check(ok == ia, "a cell can be looked up exactly when it is on the map");
    if (!ok) { sx_reach("outside"); return; }
    GN *q = attempt([&] { return g.lookup(bx, by); }, ok2);
    sx_check(ok2 && (p == q) == ((ax == bx) & (ay == by)), "two cells share a node exactly when they are the same");
    sx_check(p->x == ax && p->y == ay, "the node of a cell carries its coordinates");
    sx_check(!p->isMarked(GN::MARK_OPEN) && !p->isMarked(GN::MARK_CLOSED) && p->distance == INFINITY && !p->prev, "a fresh node carries no marks and no costs");
    p->mark(GN::MARK_OPEN); p->distance = 1; p->prev = p; p->custom = 1;
    sx_check(q->isMarked(GN::MARK_OPEN) == (p == q), "marking one node marks no other");
    SimpleGridMap2d m2(GH, GW, 0.2), m3(GW, GH, 0.3);
    int how = sx_conc(sx_int("how", 0, 2)), w = GW, h = GH;
    if (how == 0) g.initMap(false);
    else if (how == 1) g.setMap(&m3);
    else { g.setMap(&m2); w = GH; h = GW; }
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
        GN *n = g.lookup(x, y);
        sx_check(!n->isMarked(GN::MARK_OPEN) && n->distance == INFINITY && !n->prev && n->x == x && n->y == y && n->custom == 0, "starting anew forgets all marks and costs");
    }
    sx_check(!attempt([&] { return g.lookup(w, 0); }, ok) && !ok, "a new map has its own extent");
    sx_reach("anew");
}
extern "C" void h_grid_pose() {
    SimpleGridMap2d m(GW, GH, 0.1);
    Grid g;
    g.setMap(&m);
    double x = sx_real("px", -2.5, GW + 1.5), y = sx_real("py", -2.5, GH + 1.5);
    bool ok, ok2;
    bool inside = sx_fork(x >= 0) && sx_fork(y >= 0) && sx_fork(x < GW) && sx_fork(y < GH);
    sx_check(g.contains(x, y) == inside, "contains() agrees with the extent of the map");
    GN *p = attempt([&] { return g.lookup(x, y); }, ok);
    sx_check(ok == inside, "a position can be looked up exactly when it is on the map");
    Pose2d pose(x, y, 0.3);
    GN *q = attempt([&] { return g.lookup(pose); }, ok2);
    sx_check(ok2 == inside, "a pose can be looked up exactly when it is on the map");
    if (!inside) { sx_reach("outside"); return; }
    sx_check(p == q, "a pose has the node of its position");
    sx_check(p->x <= x && x < p->x + 1 && p->y <= y && y < p->y + 1, "a position belongs to the node of the cell around it");
    sx_reach("inside");
}
// ---- cells with headings and driving directions
extern "C" void h_dir() {
    SimpleGridMap2d m(2, 2, 0.1);
    Dir g;
    g.setMap(&m);
    sx_check(g.theta_slots >= 8, "headings are told apart");
    static const double th[] = {-3.1, -1.5, 0.01, 1.4, 3.0};
    int ax = sx_int("x", -2, 3), ay = sx_int("y", -2, 3), bx = sx_int("x", 0, 1), by = sx_int("y", 0, 1);
    int ta = sx_conc(sx_int("heading", 0, 4)), tb = sx_conc(sx_int("heading", 0, 4));
    bool fa = sx_bool("forward"), fb = sx_bool("forward"), ia = sx_fork(in(ax, ay, 2, 2, 0)), ok, ok2;
    sx_check(g.contains(ax, ay) == ia, "contains() agrees with the extent of the map");
    SN *p = attempt([&] { return g.lookup(ax, ay, th[ta], fa); }, ok);
    sx_check(ok == ia, "a state can be looked up exactly when it is on the map");
    if (!ok) { sx_reach("outside"); return; }
    SN *q = attempt([&] { return g.lookup(bx, by, th[tb], fb); }, ok2);
    sx_check(ok2, "every state on the map can be looked up");
    sx_check((p == q) == ((ax == bx) & (ay == by) & (ta == tb) & (fa == fb)), "two states share a node exactly when they are the same");
    sx_reach("both inside");
}
extern "C" void h_dir_heading() {
    SimpleGridMap2d m(1, 1, 0.1);
    Dir g;
    g.setMap(&m);
    double a = sx_real("heading", -3.14159265358979, 3.14159265358979), w = TWO_PI / (g.theta_slots - 1);
    SN *p = g.lookup(0, 0, a, true);
    double b = -3.1 + 0.19 * sx_conc(sx_int("other", 0, 32));
    SN *q = g.lookup(0, 0, b, true);
    if (sx_fork(circular(a, b) > w)) { sx_check(p != q, "headings further apart than one bucket have different nodes"); sx_reach("turned"); }
    if (sx_fork(a == b)) { sx_check(p == q, "the same heading has the same node"); sx_reach("same"); }
    sx_check(g.lookup(0, 0, b + TWO_PI, true) == q && g.lookup(0, 0, b - TWO_PI, true) == q, "the same heading has the same node, however often it is turned");
}
extern "C" void h_dir_nodes() {
    SimpleGridMap2d m(2, 1, 0.1), m2(1, 2, 0.1);
    Dir g;
    g.setMap(&m);
    int x = sx_conc(sx_int("x", 0, 1)), y = 0, ti = sx_conc(sx_int("heading", 0, 7));
    bool f = sx_fork(sx_bool("forward"));
    double t = -3.1 + 0.85 * ti;
    SN *p = g.lookup(x, y, t, f);
    sx_check(p->x == x && p->y == y, "the node of a state carries its coordinates");
    sx_check(!p->isMarked(SN::MARK_OPEN) && p->distance == INFINITY && !p->prev, "a fresh node carries no marks and no costs");
    p->mark(SN::MARK_OPEN); p->mark(SN::MARK_CLOSED); p->distance = 2; p->x += 0.5;
    int how = sx_conc(sx_int("how", 0, 2));
    if (how == 0) g.initMap(false); else if (how == 1) g.setMap(&m); else { g.setMap(&m2); x = 0; y = 1; }
    p = g.lookup(x, y, t, f);
    sx_check(!p->isMarked(SN::MARK_OPEN) && !p->isMarked(SN::MARK_CLOSED) && p->distance == INFINITY && p->x == x && p->y == y, "starting anew forgets marks, costs and positions");
    SN a;
    SN::init(a, Pose2d(x, y, t));
    a.forward = f;
    a.theta = t;
    sx_check(g.lookup(a) == p, "looking up by node gives the same node");
    sx_check(g.lookup(Pose2d(x, y, t)) == g.lookup(x, y, t, true), "looking up by pose gives the forward node");
    sx_reach("anew");
}
extern "C" void h_dir_pose() {
    SimpleGridMap2d m(2, 2, 0.1);
    Dir g;
    g.setMap(&m);
    double x = sx_real("px", -1.5, 3.5), y = sx_real("py", -1.5, 3.5);
    bool f = sx_fork(sx_bool("forward")), ok, ok2;
    bool inside = sx_fork(x >= 0) && sx_fork(y >= 0) && sx_fork(x < 2) && sx_fork(y < 2);
    SN *p = attempt([&] { return g.lookup(x, y, 0.5, f); }, ok);
    sx_check(ok == inside, "a position can be looked up exactly when it is on the map");
    SN a;
    SN::init(a, Pose2d(x, y, 0.5));
    a.forward = f; a.theta = 0.5;
    SN *q = attempt([&] { return g.lookup(a); }, ok2);
    sx_check(ok2 == inside, "a node can be looked up exactly when its position is on the map");
    SN *r = attempt([&] { return g.lookup(Pose2d(x, y, 0.5)); }, ok2);
    sx_check(ok2 == inside, "a pose can be looked up exactly when it is on the map");
    if (!inside) return;
    sx_check(p == q && (!f || r == p), "node, pose and position of one state share a node");
    sx_check(p->x <= x && x < p->x + 1 && p->y <= y && y < p->y + 1, "a position belongs to the node of the cell around it");
    sx_reach("inside");
}

// ---- queues and marks
static const int N = 4;
template <class Q> static void contents(Q &q, GN *n, const std::vector<int> &want) {
    sx_check(q.size() == want.size() && q.empty() == want.empty(), "the queue knows how many nodes it holds");
    std::vector<int> left(want);
    for (auto it = q.begin(); it != q.end(); ++it) {
        size_t k = 0;
        while (k < left.size() && n + left[k] != *it) ++k;
        sx_check(k < left.size(), "iterating shows the nodes of the queue");
        left.erase(left.begin() + k);
    }
    sx_check(left.empty(), "iterating shows every node of the queue");
}
extern "C" void h_fifo() {
    GN n[N];
    for (int i = 0; i < N; ++i) { GN::init(n[i], i, 0); n[i].distance = sx_int("cost", 0, 3); }
    QueueManager<GN> q;
    std::vector<int> ref;
    for (int k = 0; k < OPS; ++k) {
        int op = sx_conc(sx_int("op", 0, 2));
        if (op == 0) { int i = sx_conc(sx_int("which", 0, N - 1)); q.add(&n[i]); ref.push_back(i); }
        else if (op == 1) {
            if (ref.empty()) return;
            sx_check(q.next() == &n[ref[0]], "the queue hands out nodes in the order of their insertion");
            ref.erase(ref.begin());
            sx_reach("handed out");
        } else { q.clear(); ref.clear(); sx_reach("cleared"); }
        contents(q, n, ref);
    }
}
extern "C" void h_priority() {
    GN n[N];
    double c[N];
    for (int i = 0; i < N; ++i) { GN::init(n[i], i, 0); n[i].distance = sx_real("distance", 0, 10); n[i].h = sx_real("prediction", 0, 10); c[i] = n[i].distance + n[i].h; }
    PriorityQueueManager<GN> q;
    std::vector<int> ref;
    for (int k = 0; k < OPS; ++k) {
        int op = sx_conc(sx_int("op", 0, 3));
        if (op == 0) {
            int i = sx_conc(sx_int("which", 0, N - 1));
            for (int j : ref) if (j == i) sx_stop();
            q.add(&n[i]); ref.push_back(i);
        } else if (op == 1) {
            if (ref.empty()) return;
            GN *p = q.next();
            size_t at = ref.size();
            for (size_t j = 0; j < ref.size(); ++j) if (p == &n[ref[j]]) at = j;
            sx_check(at < ref.size(), "the queue hands out a node that was put in and not yet handed out");
            for (int j : ref) sx_check(c[p - n] <= c[j], "no other node of the queue has a lower estimated total cost");
            ref.erase(ref.begin() + at);
            sx_reach("handed out");
        } else if (op == 2) { q.clear(); ref.clear(); sx_reach("cleared"); }
        else {
            int i = sx_conc(sx_int("which", 0, N - 1));
            q.remove(&n[i]);
            for (size_t j = 0; j < ref.size(); ++j) if (ref[j] == i) { ref.erase(ref.begin() + j); sx_reach("removed"); break; }
        }
        contents(q, n, ref);
    }
}
// marks: any sequence of transitions
extern "C" void h_marks() {
    GN n, other;
    GN::init(n, 0, 0); GN::init(other, 1, 0);
    static const char M[4] = {GN::MARK_OPEN, GN::MARK_CLOSED, GN::MARK_WATCHED, GN::MARK_EXPANDED};
    bool on[4] = {false, false, false, false};
    for (int k = 0; k < OPS; ++k) {
        int which = sx_int("which", 0, 3);
        bool set = sx_bool("set");
        char m = M[sx_conc(which)];
        if (sx_fork(set)) n.mark(m); else n.unMark(m);
        for (int i = 0; i < 4; ++i) {
            if (M[i] == m) on[i] = set;
            sx_check(n.isMarked(M[i]) == on[i], "a mark is set exactly when its latest transition set it");
            sx_check(!other.isMarked(M[i]), "marking a node leaves others unmarked");
        }
        for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) sx_check(n.isMarked(M[i] | M[j]) == (on[i] && on[j]), "several marks are reported only together");
    }
    GN::init(n, 2, 3);
    for (int i = 0; i < 4; ++i) sx_check(!n.isMarked(M[i]), "a node set up anew has no marks");
    sx_check(n.x == 2 && n.y == 3 && n.distance == INFINITY && !n.prev, "a node set up anew has no costs");
}
// order of two nodes
extern "C" void h_compare() {
    GN a, b; SN c, d;
    GN::init(a, 0, 0); GN::init(b, 0, 0); SN::init(c, Pose2d(0, 0, 0)); SN::init(d, Pose2d(0, 0, 0));
    double ga = sx_real("distance", 0, 100), gb = sx_real("distance", 0, 100), ha = sx_real("prediction", 0, 100), hb = sx_real("prediction", 0, 100);
    a.distance = c.distance = ga; a.h = c.h = ha; b.distance = d.distance = gb; b.h = d.h = hb;
    sx_check(a.getTotalCost() == ga + ha, "the estimated total cost is the cost so far plus the estimated rest");
    sx_check(CompareNode<GN>()(&a, &b) == (ga + ha > gb + hb), "nodes are ordered by their estimated total cost");
    sx_check(CompareNode<SN>()(&c, &d) == (ga + ha > gb + hb), "nodes with headings are ordered by their estimated total cost");
}
