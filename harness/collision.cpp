// Collision map: the footprint of the vehicle is checked at every orientation (B06).
#include <vector>
#include <algorithm>
#include <Eigen/Core>
#include "sx.h"
#include <cslibs_path_planning/common/CollisionGridMap2d.h>
using namespace lib_path;
#ifndef SIZE
#define SIZE 13
#endif
#ifndef BINS
#define BINS 16        // orientations are treated in this many intervals
#endif
// footprint in cells
#ifndef FWD
#define FWD 5.5
#endif
#ifndef BWD
#define BWD -1.5
#endif
#ifndef WID
#define WID 5.0
#endif
#ifndef BORDER_EVERY
#define BORDER_EVERY 4 // every n-th interval is tried at the border
#endif
static const int LO = 50, UP = 200;
struct Setup {
    CollisionGridMap2d m;
    int cx, cy;
    unsigned char v[SIZE * SIZE];
    double mid, theta;
    Setup(double res) : m(SIZE, SIZE, 0, res, FWD * res, BWD * res, WID * res) {
        m.setLowerThreshold(LO); m.setUpperThreshold(UP);
        cx = cy = SIZE / 2;
    }
    void orient(int k, int turns) {
        double w = 2 * M_PI / BINS;
        mid = k * w;
        double off = sx_real("off", -0.5, 0.5);
        theta = mid + off * w + turns * 2 * M_PI;
    }
    // signed distances of the centre of a cell to the border of the footprint (positive: inside)
    double inside(int x, int y) const {
        double c = std::cos(mid), s = std::sin(mid), dx = x - cx, dy = y - cy;
        double u = c * dx + s * dy, v = -s * dx + c * dy;
        double a = std::min(FWD - u, u - BWD), b = std::min(WID / 2 - v, v + WID / 2);
        if (a >= 0 && b >= 0) return std::min(a, b);
        return -std::hypot(std::min(a, 0.0), std::min(b, 0.0));
    }
    // how far a cell's position in the footprint moves within an interval of orientations
    double turn(int x, int y) const { return std::hypot(x - cx, y - cy) * (M_PI / BINS + M_PI / 128); }
    // a cell certainly under the footprint / certainly clear of it
    bool must(int x, int y) const { return inside(x, y) >= 1.1 + turn(x, y); }
    bool may(int x, int y) const { return inside(x, y) > -1.6 - turn(x, y); }
};
// whether one of the flags is set (balanced, so that the terms stay shallow)
static unsigned char flags[SIZE * SIZE];
static bool any_of(int n) {
    if (n == 0) return false;
    while (n > 1) {
        int k = 0;
        for (int i = 0; i < n; i += 2) flags[k++] = i + 1 < n ? flags[i] | flags[i + 1] : flags[i];
        n = k;
    }
    return flags[0];
}
#ifndef TURNS
#define TURNS 2
#endif
#ifndef TURN_EVERY
#define TURN_EVERY 4   // angles beyond one turn are tried for every n-th interval
#endif
static void fill(Setup *s) {
    for (int y = 0; y < SIZE; ++y) for (int x = 0; x < SIZE; ++x) { s->v[y * SIZE + x] = sx_u8("cell"); s->m.setValue(x, y, s->v[y * SIZE + x]); }
}
static void check_free(Setup *s) {
    const int w = SIZE;
    if (s->m.isFreeRotated(s->cx, s->cy, s->theta)) {
        sx_reach("free");
        for (int y = 0; y < w; ++y) for (int x = 0; x < w; ++x) if (s->must(x, y)) sx_check(s->v[y * w + x] <= LO, "a free pose has only free cells under the footprint");
        sx_check(s->v[s->cy * w + s->cx] <= LO, "a free pose stands on a free cell");
    } else {
        sx_reach("not free");
        int n = 0;
        for (int y = 0; y < w; ++y) for (int x = 0; x < w; ++x) if (s->may(x, y)) flags[n++] = s->v[y * w + x] > LO;
        sx_check(any_of(n), "a pose with only free cells around the footprint is free");
    }
}
static void check_occ(Setup *s) {
    const int w = SIZE;
    if (s->m.isOccupiedRotated(s->cx, s->cy, s->theta)) {
        sx_reach("occupied");
        int n = 0;
        for (int y = 0; y < w; ++y) for (int x = 0; x < w; ++x) if (s->may(x, y)) flags[n++] = s->v[y * w + x] >= UP;
        sx_check(any_of(n), "an occupied pose has an occupied cell around the footprint");
    } else {
        sx_reach("not occupied");
        for (int y = 0; y < w; ++y) for (int x = 0; x < w; ++x) if (s->must(x, y)) sx_check(s->v[y * w + x] < UP, "a pose with an occupied cell under the footprint is occupied");
        sx_check(s->v[s->cy * w + s->cx] < UP, "a pose on an occupied cell is occupied");
    }
}
static Setup *centred() {
    Setup *s = new Setup(0.5);
    int k = sx_conc(sx_int("bin", 0, BINS - 1)), n = 0;
    for (int y = 0; y < SIZE; ++y) for (int x = 0; x < SIZE; ++x) { s->mid = k * 2 * M_PI / BINS; n += s->must(x, y); }
    sx_check(n > 0, "internal: the footprint has cells");
    s->orient(k, k % TURN_EVERY ? 0 : sx_conc(sx_int("turns", -TURNS, TURNS)));
    fill(s);
    return s;
}
extern "C" void h_free() { Setup *s = centred(); check_free(s); delete s; }
extern "C" void h_occ() { Setup *s = centred(); check_occ(s); delete s; }
// at the border the part of the footprint on the map counts
static Setup *bordered() {
    Setup *s = new Setup(0.5);
    int c = sx_conc(sx_int("corner", 0, 3));
    s->cx = c & 1 ? SIZE - 1 : 1; s->cy = c & 2 ? SIZE - 2 : 0;
    s->orient(sx_conc(sx_int("bin", 0, BINS - 1)) / BORDER_EVERY * BORDER_EVERY, 0);
    fill(s);
    return s;
}
extern "C" void h_border_free() { Setup *s = bordered(); check_free(s); delete s; }
extern "C" void h_border_occ() { Setup *s = bordered(); check_occ(s); delete s; }
// poses off the map are never free
extern "C" void h_off() {
    Setup *s = new Setup(0.5);
    s->cx = sx_conc(sx_int("x", -2, SIZE + 1)); s->cy = sx_conc(sx_int("y", 0, 2)) * (SIZE + 1) / 2 - 1;
    s->mid = 0; s->theta = sx_conc(sx_int("quarter", -12, 12)) * M_PI / 2;
    unsigned char v = sx_u8("cell");
    for (int y = 0; y < SIZE; ++y) for (int x = 0; x < SIZE; ++x) s->m.setValue(x, y, 0);
    if (s->cx >= 0 && s->cy >= 0 && s->cx < SIZE && s->cy < SIZE) {
        sx_check(s->m.isFreeRotated(s->cx, s->cy, s->theta) && !s->m.isOccupiedRotated(s->cx, s->cy, s->theta), "every pose of an empty map is free");
        s->m.setValue(s->cx, s->cy, v);
        bool f = s->m.isFreeRotated(s->cx, s->cy, s->theta), o = s->m.isOccupiedRotated(s->cx, s->cy, s->theta);
        sx_check(f == (v <= LO) && o == (v >= UP), "the cell of the pose counts");
        // a copy answers for its own cells, also when the original changes
        CollisionGridMap2d k(s->m);
        s->m.setValue(s->cx, s->cy, 255 - v);
        sx_check(k.isFreeRotated(s->cx, s->cy, s->theta) == f && k.isOccupiedRotated(s->cx, s->cy, s->theta) == o, "a copied map answers for its own cells");
        sx_reach("on the map");
    } else {
        sx_reach("off the map");
        sx_check(!s->m.isFreeRotated(s->cx, s->cy, s->theta), "a pose off the map is not free");
    }
    delete s;
}
