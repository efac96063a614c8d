// Successors of poses with a steering angle (generic/SteeringNeighborhood.hpp, DynamicSteeringNeighborhood.h)
// and the line checks they rely on (generic/MapManager.hpp).
#include "sx.h"
#include <cstring>
#include <iostream>
#include <deque>
#include <tuple>
#include <limits>
#include <vector>
#include <cslibs_path_planning/generic/Algorithms.hpp>
#include <cslibs_path_planning/generic/SteeringNeighborhood.hpp>
#include <cslibs_path_planning/generic/DynamicSteeringNeighborhood.h>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
using namespace lib_path;
typedef DynamicSteeringNeighborhood DSN;
template <class NB> struct T { typedef typename AStarDynamicSearch<NB>::NodeT N; };

// ---- what a successor has to be, written down independently
struct Car {
    double step, la, res;       // metres per move, wheel base, metres per cell
    int max, delta;             // steering limit and step in degrees
    bool reversed, both, start_straight;   // both directions possible; backing out of the start is one straight of the wheel base
    int straights;              // straight moves asked for around a change of direction
    bool fwd, bwd;
};
struct Out { double x, y, th, cost; bool fwd; int steer; char custom; };
template <class N> static bool expect(const Car &c, const N *r, int i, int step, const SearchOptions &so, int &steer, bool &fwd, bool &turned) {
    fwd = i < 3;
    bool initial = r->depth < 1;
    if (initial && r->forward != fwd) return false;                         // a start keeps its direction
    if (r->custom > 0 && r->steering_angle != 0) return false;              // after a change of direction: straight only
    int turn = i % 3;
    if ((turn == 0) != (step == 0)) return false;
    if (turn == 1 && r->steering_angle <= -c.max) return false;
    if (turn == 2 && r->steering_angle >= c.max) return false;
    steer = r->steering_angle + (turn == 0 ? 0 : turn == 1 ? -step * c.delta : step * c.delta);
    if (steer > c.max) steer = c.max;
    if (steer < -c.max) steer = -c.max;
    turned = r->forward != fwd;
    if (turned) {
        if (r->custom > 0 || steer != 0) return false;
        const N *p = r;
        for (int k = 1; k < c.straights; ++k) {
            if (!p->prev) return false;
            p = dynamic_cast<const N *>(p->prev);
            if (p->steering_angle != 0) return false;
        }
    }
    return true;
}
template <class N> static void judge(const Car &c, const N *r, const SearchOptions &so, int i, int step, double cost, const Out &o, bool custom_known) {
    int steer; bool fwd, turned;
    bool special = c.start_straight && !c.reversed && r->depth < 1 && i >= 3;
    if (special) {
        if (r->forward || (r->custom > 0 && r->steering_angle != 0) || i > 3 || step != 0) { sx_check(cost < 0, "a move that is not possible is refused"); sx_reach("refused"); return; }
        sx_check(cost >= 0, "backing straight out of the start is possible");
        sx_check(!o.fwd && o.steer == 0, "backing out of the start is straight and backward");
        double L = c.la / c.res;
        sx_check(sx_near(o.x, r->x - L * std::cos(r->theta), 1e-7) && sx_near(o.y, r->y - L * std::sin(r->theta), 1e-7) && sx_near(o.th, r->theta, 1e-9), "backing out of the start leads one wheel base straight back");
        sx_check(sx_near(cost, L * so.penalty_backward, 1e-7), "backing out costs its length with the backward penalty");
        sx_check(o.custom == 0, "backing out asks for no further straight moves");
        sx_reach("backing out");
        return;
    }
    if (!expect(c, r, i, step, so, steer, fwd, turned)) { sx_check(cost < 0, "a move that is not possible is refused"); sx_reach("refused"); return; }
    sx_check(cost >= 0, "a possible move is offered");
    if (cost < 0) return;
    sx_reach(steer == 0 ? "straight" : "arc");
    if (turned) sx_reach("change of direction");
    sx_check(o.fwd == fwd, "forward and backward moves are labelled as such");
    sx_check(o.steer == steer, "the steering angle changes by the steps asked for, up to its limit");
    sx_check(o.steer <= c.max && o.steer >= -c.max, "the steering angle stays within its limits");
    double dir = (fwd ? 1 : -1) * (c.reversed ? -1 : 1), D = dir * c.step / c.res;      // travelled cells, signed
    double cs = std::cos(r->theta), sn = std::sin(r->theta), turn = 0;
    if (steer == 0) {
        sx_check(sx_near(o.x, r->x + D * cs, 1e-7) && sx_near(o.y, r->y + D * sn, 1e-7), "a straight move leads its length along the heading");
    } else {
        // a circle of radius R around the centre (x - R sin, y + R cos), R positive for left turns
        double R = c.la / std::tan(steer * (M_PI / 180)) / c.res;
        turn = D / R;
        double ct = std::cos(turn), st = std::sin(turn);
        sx_check(sx_near(o.x, r->x - R * sn + R * (sn * ct + cs * st), 1e-7), "a turn leads along the arc of its steering angle (x)");
        sx_check(sx_near(o.y, r->y + R * cs - R * (cs * ct - sn * st), 1e-7), "a turn leads along the arc of its steering angle (y)");
    }
    sx_check(o.th >= -M_PI - 1e-9 && o.th <= M_PI + 1e-9, "the new heading is normalised");
    double want = r->theta + turn, k = o.th - want;
    sx_check(sx_near(k, 0, 1e-7) || sx_near(k, 2 * M_PI, 1e-7) || sx_near(k, -2 * M_PI, 1e-7), "the heading turns by the angle of the arc");
    double price = c.step / c.res * (turned ? so.penalty_turn : 1) * (fwd ? 1 : so.penalty_backward);
    sx_check(sx_near(cost, price, 1e-7), "a move costs its length with the penalties for backward moves and changes of direction");
    if (custom_known) sx_check(o.custom == (turned ? c.straights - 1 : r->custom > 0 ? r->custom - 1 : 0), "straight moves still due are counted down");
}
template <class N> struct Chain {
    N n[4];
    N *ref() { return &n[0]; }
};
static const int STEER[] = {0, 15, -15, 30, -30, 45, -45, 60, -60, 50, -50};
template <class N> static void draw(Chain<N> &c, bool any_pose, int longest) {
    int steering = sx_conc(sx_int("steering", 0, 10));
#ifndef MORE
    if (steering > 2 && longest > 1) longest = 1;           // quick: long histories only with small steering angles
#endif
    int len = sx_conc(sx_int("predecessors", 0, longest));
    for (int i = 0; i <= len; ++i) {
        N::init(c.n[i], Pose2d(0, 0, 0));
        c.n[i].theta = 0;
        c.n[i].forward = true;
        c.n[i].prev = i < len ? &c.n[i + 1] : NULL;
        if (i) c.n[i].steering_angle = sx_fork(sx_bool("turning")) ? 15 : 0;
    }
    N &r = c.n[0];
    if (any_pose) { r.x = sx_real("x", 0, 100); r.y = sx_real("y", 0, 100); r.theta = sx_angle("theta"); }
    else { r.x = 7.25; r.y = 11.5; r.theta = 0.7; }
    r.steering_angle = STEER[steering];
    r.forward = sx_fork(sx_bool("forward"));
    r.depth = sx_conc(sx_int("depth", 0, 1));
    r.custom = (char)sx_conc(sx_int("due", 0, 2));
}
static void options(SearchOptions &so) { so.penalty_backward = sx_real("penalty_backward", 1, 5); so.penalty_turn = sx_real("penalty_turn", 1, 5); }
template <class NB> static Out call(const typename T<NB>::N *r, SearchOptions &so, int i, int step, double &cost) {
    Out o;
    o.custom = 0;
    cost = NB::advance(r, so, i, step, o.x, o.y, o.th, o.fwd, o.steer, o.custom, 0.0);
    return o;
}
template <class NB> static void fixed(const Car &car, int steps, bool any_pose, int longest) {
    typedef typename T<NB>::N N;
    NB::setResolution(car.res);
    Chain<N> c;
    draw(c, any_pose, longest);
    SearchOptions so;
    options(so);
    int i = sx_conc(sx_int("move", 0, car.both ? 5 : 2)), step = sx_conc(sx_int("step", 0, steps));
    double cost;
    Out o = call<NB>(c.ref(), so, i, step, cost);
    if (!car.both && c.ref()->forward != (i < 3) && c.ref()->depth >= 1) return;      // cannot arise
    judge(car, c.ref(), so, i, step, cost, o, car.both);
}
typedef SteeringNeighborhood<40, 2, 15, 60, 120> Plain;
typedef SteeringNeighborhood<40, 2, 15, 60, 120, SteeringMoves::FORWARD_BACKWARD, true> Reversed;
typedef SteeringNeighborhood<40, 2, 15, 60, 120, SteeringMoves::FORWARD> Forward;
typedef SteeringNeighborhood<50, 3, 10, 50, 60, SteeringMoves::FORWARD_BACKWARD, false, 2> Short;
extern "C" void h_plain() { fixed<Plain>({0.4, 1.2, 0.1, 60, 15, false, true, false, 3}, 2, true, 3); }
extern "C" void h_reversed() { fixed<Reversed>({0.4, 1.2, 0.05, 60, 15, true, true, false, 3}, 2, true, 0); }
extern "C" void h_forward() { fixed<Forward>({0.4, 1.2, 0.2, 60, 15, false, false, false, 3}, 2, true, 0); }
extern "C" void h_short() { fixed<Short>({0.5, 0.6, 1.0, 50, 10, false, true, false, 2}, 3, true, 1); }
extern "C" void h_dynamic() {
    typedef T<DSN>::N N;
    static const Car cars[] = {{0.4, 1.2, 0.1, 60, 15, false, true, true, 1}, {0.75, 0.9, 0.25, 50, 10, true, true, true, 1}};
    Car car = cars[sx_conc(sx_int("car", 0, 1))];
    DSN::distance_step = car.step; DSN::LA = car.la; DSN::MAX_STEER_ANGLE = car.max; DSN::STEER_DELTA = car.delta; DSN::reversed = car.reversed;
    DSN::allow_forward = true; DSN::allow_backward = true;
    DSN::setResolution(car.res);
    Chain<N> c;
    draw(c, true, 0);
    SearchOptions so;
    options(so);
    int i = sx_conc(sx_int("move", 0, 5)), step = sx_conc(sx_int("step", 0, 2));
    double cost;
    Out o = call<DSN>(c.ref(), so, i, step, cost);
    judge(car, c.ref(), so, i, step, cost, o, true);
}
// one direction only: moves in the other one are never offered
extern "C" void h_dynamic_one_way() {
    typedef T<DSN>::N N;
    DSN::distance_step = 0.4; DSN::LA = 1.2; DSN::MAX_STEER_ANGLE = 60; DSN::STEER_DELTA = 15; DSN::reversed = sx_fork(sx_bool("reversed"));
    DSN::allow_forward = sx_fork(sx_bool("allow forward")); DSN::allow_backward = !DSN::allow_forward;
    DSN::setResolution(0.1);
    Chain<N> c;
    draw(c, false, 0);
    if (c.ref()->depth < 1) return;
    SearchOptions so;
    int i = sx_conc(sx_int("move", 0, 5));
    double cost;
    Out o = call<DSN>(c.ref(), so, i, i % 3 ? 1 : 0, cost);
    if (c.ref()->forward != (i < 3)) { sx_check(cost < 0, "the direction is not changed when only one is allowed"); sx_reach("refused"); }
    (void)o;
}

// ---- successors on a map
struct World {
    int w, h;
    SimpleGridMap2d m;
    std::vector<char> occ;
    World(int w, int h, double res) : w(w), h(h), m(w, h, res), occ(w * h, 0) {
        m.setLowerThreshold(50); m.setUpperThreshold(200); m.setNoInformationValue(127);
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { unsigned char v = sx_u8("cell"); m.setValue(x, y, v); occ[y * w + x] = -1; val.push_back(v); }
    }
    std::vector<unsigned char> val;
    bool occupied(int x, int y) { return x >= 0 && y >= 0 && x < w && y < h && val[y * w + x] >= 200; }
    bool in(int x, int y) { return x >= 0 && y >= 0 && x < w && y < h; }
};
typedef DynamicDirectionalStateSpaceManager<T<DSN>::N> DM;
// cells of the chord, in the order they are passed, the start left out
static void chord(int x0, int y0, int x1, int y1, std::vector<std::pair<int, int> > &out) {
    int dx = std::abs(x1 - x0), dy = std::abs(y1 - y0), n = std::max(dx, dy);
    for (int k = 1; k <= n; ++k) out.push_back(std::make_pair(2 * k * (x1 - x0), 2 * k * (y1 - y0)));      // doubled numerators over 2n
}
struct Recorder {
    SearchOptions search_options;
    typedef T<DSN>::N N;
    std::vector<std::pair<N *, double> > got;
    bool take;
    NeighborhoodBase::ProcessingResult processNeighbor(N *ref, N *n, double cost) { got.push_back(std::make_pair(n, cost)); return take ? NeighborhoodBase::PR_ADDED_TO_OPEN_LIST : NeighborhoodBase::PR_IGNORED; }
};
#ifndef SLOTS
#define SLOTS 8
#endif
template <class NB> static void successors(World &k, const Car &car, int steps, double res, double x, double y, double th, bool fwd) {
    typedef typename T<NB>::N N;
    NB::setResolution(res);
    DM d;
    d.theta_slots = SLOTS;
    d.setMap(&k.m);
    N ref;
    N::init(ref, Pose2d(x, y, th));
    ref.theta = th; ref.forward = fwd; ref.depth = 1; ref.steering_angle = STEER[sx_conc(sx_int("steering", 0, 2))];
    Recorder a;
    a.take = true;
    NB::iterateFreeNeighbors(a, d, &ref);
    // which moves could be made at all
    size_t at = 0;
    for (int i = car.fwd ? 0 : 3; i < (car.bwd ? 6 : 3); ++i) for (int step = 0; step <= steps; ++step) {
        double cost;
        Out o = call<NB>(&ref, a.search_options, i, step, cost);
        if (cost < 0) continue;
        bool inside = o.x >= -32 && o.y >= -32 && o.x < k.w + 32 && o.y < k.h + 32;
        if (!inside) continue;
        int ex = std::floor(o.x), ey = std::floor(o.y);
        // was it offered? successors come in the order of the moves
        bool offered = at < a.got.size() && a.got[at].second == cost && d.lookup(ex, ey, o.th, o.steer, o.fwd) == a.got[at].first;
        bool hit = k.in(ex, ey) && sx_fork(k.occupied(ex, ey));
        if (offered) {
            N *n = a.got[at].first;
            at++;
            sx_check(!hit, "no successor stands on an occupied cell");
            // another successor of the same state may have come later
            bool again = false;
            for (size_t j = at; j < a.got.size(); ++j) again |= a.got[j].first == n;
            if (!again) {
                sx_check(n->x == o.x && n->y == o.y && n->theta == o.th && n->forward == o.fwd && n->steering_angle == o.steer, "an accepted successor is stored as it was reached");
                sx_check(n->depth == ref.depth + 1, "an accepted successor is one move further");
                sx_check(n->custom >= 0 && n->custom <= car.straights, "an accepted successor carries its own straight moves due");
            }
            sx_reach("offered");
        } else sx_reach("withheld");
        // every cell the chord passes through near its axis
        std::vector<std::pair<int, int> > cells;
        int x0 = std::floor(x), y0 = std::floor(y), n = std::max(std::abs(ex - x0), std::abs(ey - y0));
        chord(x0, y0, ex, ey, cells);
        bool blocked = hit, maybe = hit;
        int run = 0;
        for (auto &c : cells) {
            // exact position of the line at this column/row is c/(2n): cells at most half a cell away
            double px = x0 + c.first / (2.0 * n), py = y0 + c.second / (2.0 * n);
            int lx = (int)std::ceil(px - 0.5 - 1e-9), hx = (int)std::floor(px + 0.5 + 1e-9), ly = (int)std::ceil(py - 0.5 - 1e-9), hy = (int)std::floor(py + 0.5 + 1e-9);
            bool all = true;
            for (int cy = ly; cy <= hy; ++cy) for (int cx = lx; cx <= hx; ++cx) {
                bool o2 = k.in(cx, cy) && sx_fork(k.occupied(cx, cy));
                all &= o2; maybe |= o2;
            }
            run = all ? run + 1 : 0;
            blocked |= run > (int)(0.5 / res);      // lines are looked at every half metre
        }
        if (offered) sx_check(!blocked, "no successor is reached through an obstacle");
        if (!offered) sx_check(maybe, "a move whose line meets no obstacle is offered");
    }
    sx_check(at == a.got.size(), "only possible moves are offered");
}
static const double TH[] = {0, 0.7, 1.5707963, 2.3, 3.1, -0.5, -1.5707963, -2.6};
extern "C" void h_map_plain() {
    World k(3, 3, 0.6);
    typedef SteeringNeighborhood<120, 1, 30, 60, 120, SteeringMoves::FORWARD_BACKWARD, false, 1> NB;
    successors<NB>(k, {1.2, 1.2, 0.6, 60, 30, false, true, false, 1, true, true}, 1, 0.6, 1.25, 1.5, TH[sx_conc(sx_int("heading", 0, 7))], sx_fork(sx_bool("forward")));
}
extern "C" void h_map_forward() {
    World k(3, 2, 0.6);
    typedef SteeringNeighborhood<120, 1, 30, 60, 120, SteeringMoves::FORWARD> NB;
    successors<NB>(k, {1.2, 1.2, 0.6, 60, 30, false, false, false, 2, true, false}, 1, 0.6, 0.25, 1.5, TH[sx_conc(sx_int("heading", 0, 7))], true);
}
static void dynamic_map(int w, int h, double res, double step, double x, double y) {
    World k(w, h, res);
    DSN::distance_step = step; DSN::LA = 1.2; DSN::MAX_STEER_ANGLE = 60; DSN::STEER_DELTA = 30; DSN::reversed = false; DSN::steer_steps = 1;
    int dirs = sx_conc(sx_int("directions", 1, 3));
    DSN::allow_forward = dirs & 1; DSN::allow_backward = dirs & 2;
    Car c = {step, 1.2, res, 60, 30, false, dirs == 3, true, 1, (dirs & 1) != 0, (dirs & 2) != 0};
    successors<DSN>(k, c, 1, res, x, y, TH[sx_conc(sx_int("heading", 0, 7))], dirs == 3 ? sx_fork(sx_bool("forward")) : dirs == 1);
}
extern "C" void h_map_dynamic() { dynamic_map(3, 3, 0.6, 1.3, 1.5, 1.25); }
extern "C" void h_map_edge() { dynamic_map(3, 2, 0.6, 1.3, -1.5, 0.25); }
extern "C" void h_map_fine() { dynamic_map(4, 2, 0.2, 0.7, 0.5, 0.5); }
// the three line tests directly, anywhere on or around the map
extern "C" void h_lines() {
    World k(3, 2, 0.6);
    DM d;
    d.theta_slots = 1;
    d.setMap(&k.m);
    int sx = sx_conc(sx_int("sx", -2, 4)), sy = sx_conc(sx_int("sy", -1, 2)), ex = sx_conc(sx_int("ex", -2, 4)), ey = sx_conc(sx_int("ey", -1, 2));
    double o = sx_conc(sx_int("inside", 0, 1)) ? 0.75 : 0.0;
    int which = sx_conc(sx_int("which", 0, 2));
    bool got = which == 0 ? d.isFree(sx + o, sy + o, ex + o, ey + o) : which == 1 ? d.isFreeOrUnknown(sx + o, sy + o, ex + o, ey + o) : !d.isOccupied(sx + o, sy + o, ex + o, ey + o);
    auto bad = [&](int x, int y) {
        if (!k.in(x, y)) return which == 0;
        unsigned char v = k.val[y * k.w + x];
        return sx_fork(which == 0 ? v > 50 : v >= 200);
    };
    // end cell; positions left of or below zero are truncated towards the map
    int fx = (int)(ex + o), fy = (int)(ey + o);
    std::vector<std::pair<int, int> > cells;
    chord(sx, sy, ex, ey, cells);
    bool blocked = bad(ex, ey), maybe = blocked || bad(fx, fy);
    int n = std::max(std::abs(ex - sx), std::abs(ey - sy));
    for (auto &c : cells) {
        double px = sx + c.first / (2.0 * n), py = sy + c.second / (2.0 * n);
        int lx = (int)std::ceil(px - 0.5 - 1e-9), hx = (int)std::floor(px + 0.5 + 1e-9), ly = (int)std::ceil(py - 0.5 - 1e-9), hy = (int)std::floor(py + 0.5 + 1e-9);
        bool all = true;
        for (int cy = ly; cy <= hy; ++cy) for (int cx = lx; cx <= hx; ++cx) { bool b = bad(cx, cy); all &= b; maybe |= b; }
        blocked |= all;
    }
    if (got) { sx_check(!blocked, which == 0 ? "a line over cells that are not free is not free" : "a line over an occupied cell is not usable"); sx_reach("usable"); }
    else { sx_check(maybe, "a line over free cells only is usable"); sx_reach("blocked"); }
}
