// Grid maps: cell classes, coordinates, lines, discs, areas.
#include "sx.h"
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <cslibs_path_planning/common/RotatedGridMap2d.h>
#include <cslibs_path_planning/common/Bresenham2d.h>
#include <cslibs_path_planning/common/MapMath.h>
#include <vector>
using namespace lib_path;

// ---------------------------------------------------------------- B01
static const int W = 3, H = 2;
extern "C" void h_classes() {
    SimpleGridMap2d m(W, H, 1.0);
    int lo = sx_u8("lower"), up = sx_u8("upper"), ni = sx_int("unknown", -1, 255), v = sx_u8("value");
    sx_assume(lo < up);
    m.setLowerThreshold(lo);
    m.setUpperThreshold(up);
    m.setNoInformationValue(ni);
    unsigned x = sx_conc(sx_int("x", 0, W - 1)), y = sx_conc(sx_int("y", 0, H - 1));
    m.setValue(x, y, v);
    sx_check(m.getValue(x, y) == v, "a cell reads back what was written");
    bool unknown = v == ni;
    bool fr = !unknown & (v <= lo), oc = !unknown & (v >= up), no = unknown | ((v > lo) & (v < up));
    sx_check(m.isFree(x, y) == fr, "isFree follows the thresholds and the unknown marker");
    sx_check(m.isOccupied(x, y) == oc, "isOccupied follows the thresholds and the unknown marker");
    sx_check(m.isNoInformation(x, y) == no, "isNoInformation follows the thresholds and the unknown marker");
    const GridMap2d &g = m;
    sx_check(g.isFree(x, y, 0.3) == fr && g.isOccupied(x, y, 0.3) == oc && g.isNoInformation(x, y, 0.3) == no, "a heading makes no difference on a plain map");
    Point2d p(x + 0.5, y + 0.25);
    sx_check(g.isFree(p) == fr && g.isOccupied(p) == oc && g.isNoInformation(p) == no, "queries by point answer for the cell of the point");
    sx_reach("classified");
}
// default thresholds, fresh map, bulk assignment
extern "C" void h_bulk() {
    int w = sx_conc(sx_int("w", 1, 4)), h = sx_conc(sx_int("h", 1, 3));
    SimpleGridMap2d m(w, h, 0.5);
    sx_check((int)m.getWidth() == w && (int)m.getHeight() == h && m.getResolution() == 0.5, "a new map has the requested size");
    sx_check(m.getOrigin().x == 0 && m.getOrigin().y == 0, "a new map has its origin at zero");
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { m.setValue(x, y, sx_u8("old")); }
    unsigned char v = sx_u8("fill");
    m.set(v);
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) sx_check(m.getValue(x, y) == v, "set(value) writes every cell");
    int w2 = sx_conc(sx_int("w2", 1, 4)), h2 = sx_conc(sx_int("h2", 1, 3)), extra = sx_conc(sx_int("extra", 0, 1));
    std::vector<uint8_t> d(w2 * h2 + extra);
    for (size_t i = 0; i < d.size(); ++i) d[i] = sx_u8("data");
    m.set(d, w2, h2);
    sx_check((int)m.getWidth() == w2 && (int)m.getHeight() == h2, "set(data) resizes the map");
    for (int y = 0; y < h2; ++y) for (int x = 0; x < w2; ++x) sx_check(m.getValue(x, y) == d[y * w2 + x], "set(data) takes over the data row by row");
    unsigned char *raw = m.getData();
    for (int y = 0; y < h2; ++y) for (int x = 0; x < w2; ++x) sx_check(raw[y * w2 + x] == d[y * w2 + x], "getData exposes the cells row by row");
    for (int y = -1; y <= h2; ++y) for (int x = -1; x <= w2; ++x) sx_check(m.isInMap(x, y) == (x >= 0 && y >= 0 && x < w2 && y < h2), "isInMap accepts exactly the cells of the map");
    RotatedGridMap2d r(w, h, 0.25, 0.5);
    r.set(d, w2, h2, 0.75);
    sx_check((int)r.getWidth() == w2 && (int)r.getHeight() == h2 && r.getRotation() == 0.75, "set(data) resizes and turns a rotated map");
    for (int y = 0; y < h2; ++y) for (int x = 0; x < w2; ++x) sx_check(r.getValue(x, y) == d[y * w2 + x], "set(data) takes over the data row by row");
}
// writes touch their own cell only; isInMap for all ints
extern "C" void h_write() {
    SimpleGridMap2d m(W, H, 1.0);
    unsigned char v[W * H];
    for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { v[y * W + x] = sx_u8("cell"); m.setValue(x, y, v[y * W + x]); }
    for (int k = 0; k < 2; ++k) {
        int x = sx_conc(sx_int("x", 0, W - 1)), y = sx_conc(sx_int("y", 0, H - 1));
        v[y * W + x] = sx_u8("value");
        m.setValue(x, y, v[y * W + x]);
    }
    for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) sx_check(m.getValue(x, y) == v[y * W + x], "writing a cell changes that cell only");
    int a = sx_int("ax", -2147483647 - 1, 2147483647), b = sx_int("ay", -2147483647 - 1, 2147483647);
    sx_check(m.isInMap(a, b) == (a >= 0 && b >= 0 && a < W && b < H), "isInMap accepts exactly the cells of the map");
}

// ---------------------------------------------------------------- B02
static const double TOL = 1e-9;
static void in_cell(double l, double res, unsigned c, const char *msg) {
    double t = sx_symbolic() ? 0 : TOL;
    sx_check(l >= c * res - t && l <= (c + 1) * res + t, msg);
}
static bool edge(double l, double res, int n) {     // native replay: too close to a border to tell
    if (sx_symbolic()) return false;
    return std::fabs(l) < 1e-9 || std::fabs(l - n * res) < 1e-9;
}
extern "C" void h_point() {
    SimpleGridMap2d m(W, H, 1.0);
    double res = sx_real("res", 0.5, 2), ox = sx_real("ox", -3, 3), oy = sx_real("oy", -3, 3);
    m.setResolution(res);
    m.setOrigin(Point2d(ox, oy));
    double lx = sx_real("lx", -5, 8), ly = sx_real("ly", -5, 6);
    double px = ox + lx, py = oy + ly;
    if (edge(lx, res, W) || edge(ly, res, H)) sx_stop();
    bool in = lx >= 0 && lx < W * res && ly >= 0 && ly < H * res;
    unsigned x, y;
    bool r = m.point2cell(px, py, x, y);
    if (in) sx_check(r, "a point on the map has a cell"); else sx_check(!r, "a point off the map has no cell");
    const GridMap2d &g = m;
    bool im = g.isInMap(px, py);
    if (in) sx_check(im && g.isInMap(Point2d(px, py)), "isInMap accepts every point on the map"); else sx_check(!im && !g.isInMap(Point2d(px, py)), "isInMap refuses every point off the map");
    if (r) {
        sx_reach("on the map");
        in_cell(lx, res, x, "the cell of a point contains the point");
        in_cell(ly, res, y, "the cell of a point contains the point");
        unsigned x2, y2;
        sx_check(g.point2cell(Point2d(px, py), x2, y2) && x2 == x && y2 == y, "both point conversions agree");
        sx_check(g.pose2cell(Pose2d(px, py, 1.0), x2, y2) && x2 == x && y2 == y, "pose and point conversions agree");
    } else sx_reach("off the map");
    double sx, sy, bx, by;
    bool s = m.point2cellSubPixel(px, py, sx, sy);
    if (in) sx_check(s, "a point on the map has a sub-cell position"); else sx_check(!s, "a point off the map has no sub-cell position");
    sx_check(sx_near(sx * res, lx, 1e-9) && sx_near(sy * res, ly, 1e-9), "sub-cell positions are exact");
    m.cell2pointSubPixel(sx, sy, bx, by);
    sx_check(sx_near(bx, px, 1e-9) && sx_near(by, py, 1e-9), "sub-cell positions convert back to the point");
}
extern "C" void h_cell() {
    SimpleGridMap2d m(W, H, 1.0);
    double res = sx_real("res", 0.5, 2), ox = sx_real("ox", -3, 3), oy = sx_real("oy", -3, 3);
    m.setResolution(res);
    m.setOrigin(Point2d(ox, oy));
    int cx = sx_conc(sx_int("x", 0, W - 1)), cy = sx_conc(sx_int("y", 0, H - 1));
    double px, py; float fx, fy;
    m.cell2point(cx, cy, px, py);
    sx_check(sx_near(px - ox, (cx + 0.5) * res, 1e-9) && sx_near(py - oy, (cy + 0.5) * res, 1e-9), "a cell's point is the centre of its square");
    m.cell2point(cx, cy, fx, fy);
    sx_check(sx_near(fx, px, 1e-4) && sx_near(fy, py, 1e-4), "single and double precision agree");
    Point2d p;
    ((const GridMap2d &)m).cell2point(cx, cy, p);
    sx_check(sx_near(p.x, px, 1e-12) && sx_near(p.y, py, 1e-12), "both cell conversions agree");
    unsigned x, y;
    sx_check(m.point2cell(px, py, x, y) && (int)x == cx && (int)y == cy, "a cell's point converts back to the cell");
    // continuous map coordinates
    double mx, my, qx, qy, u = sx_real("u", -6, 6), v = sx_real("v", -6, 6);
    pos2map(u, v, mx, my, m);
    map2pos(mx, my, qx, qy, m);
    sx_check(sx_near(qx, u, 1e-9) && sx_near(qy, v, 1e-9), "map2pos undoes pos2map");
    sx_check(sx_near(mx * res, u - ox, 1e-9) && sx_near(my * res, v - oy, 1e-9), "pos2map measures cells from the origin");
    double th = sx_real("th", -3, 3);
    Pose2d pp = pos2map(Pose2d(u, v, th), m), qq = map2pos(pp, m);
    sx_check(sx_near(pp.x, mx, 1e-9) && sx_near(pp.y, my, 1e-9) && pp.theta == th && sx_near(qq.x, u, 1e-9) && sx_near(qq.y, v, 1e-9) && qq.theta == th, "poses convert like points");
}
extern "C" void h_rot_point() {
    double yaw = sx_angle("yaw"), c = std::cos(yaw), s = std::sin(yaw);
    RotatedGridMap2d m(W, H, yaw, 1.0);
    double res = sx_real("res", 0.5, 2), ox = sx_real("ox", -3, 3), oy = sx_real("oy", -3, 3);
    m.setResolution(res);
    m.setOrigin(Point2d(ox, oy));
    double lx = sx_real("lx", -5, 8), ly = sx_real("ly", -5, 6);
    double px = ox + c * lx - s * ly, py = oy + s * lx + c * ly;
    if (edge(lx, res, W) || edge(ly, res, H)) sx_stop();
    bool in = lx >= 0 && lx < W * res && ly >= 0 && ly < H * res;
    unsigned x, y;
    bool r = m.point2cell(px, py, x, y);
    if (in) sx_check(r, "a point on the map has a cell"); else sx_check(!r, "a point off the map has no cell");
    const GridMap2d &g = m;
    bool im = g.isInMap(px, py);
    if (in) sx_check(im && g.isInMap(Point2d(px, py)), "isInMap accepts every point on the map"); else sx_check(!im && !g.isInMap(Point2d(px, py)), "isInMap refuses every point off the map");
    if (r) {
        sx_reach("on the map");
        in_cell(lx, res, x, "the cell of a point contains the point");
        in_cell(ly, res, y, "the cell of a point contains the point");
    } else sx_reach("off the map");
    double bx, by, ux, uy;
    bool sb = m.point2cellSubPixel(px, py, ux, uy);
    if (in) sx_check(sb, "a point on the map has a sub-cell position"); else sx_check(!sb, "a point off the map has no sub-cell position");
    sx_check(sx_near(ux * res, lx, 1e-9) && sx_near(uy * res, ly, 1e-9), "sub-cell positions are exact");
    m.cell2pointSubPixel(lx / res, ly / res, bx, by);
    sx_check(sx_near(bx, px, 1e-9) && sx_near(by, py, 1e-9), "sub-cell positions convert to the point");
}
extern "C" void h_rot_cell() {
    double yaw = sx_angle("yaw"), c = std::cos(yaw), s = std::sin(yaw);
    RotatedGridMap2d m(W, H, yaw, 1.0);
    double res = sx_real("res", 0.5, 2), ox = sx_real("ox", -3, 3), oy = sx_real("oy", -3, 3);
    m.setResolution(res);
    m.setOrigin(Point2d(ox, oy));
    sx_check(m.getRotation() == yaw, "a rotated map reports its rotation");
    int cx = sx_conc(sx_int("x", 0, W - 1)), cy = sx_conc(sx_int("y", 0, H - 1));
    double px, py; float fx, fy;
    m.cell2point(cx, cy, px, py);
    double lx = (cx + 0.5) * res, ly = (cy + 0.5) * res;
    sx_check(sx_near(px, ox + c * lx - s * ly, 1e-9) && sx_near(py, oy + s * lx + c * ly, 1e-9), "a cell's point is the centre of its rotated square");
    m.cell2point(cx, cy, fx, fy);
    sx_check(sx_near(fx, px, 1e-4) && sx_near(fy, py, 1e-4), "single and double precision agree");
    unsigned x, y;
    sx_check(m.point2cell(px, py, x, y) && (int)x == cx && (int)y == cy, "a cell's point converts back to the cell");
}

// ---------------------------------------------------------------- B03
#ifndef LEN
#define LEN 5
#endif
// cells visited by one walk; returns their number, -1 if it does not stop
static int walk(Bresenham2d &b, unsigned *xs, unsigned *ys, int max) {
    int n = 0;
    b.coordinates(xs[0], ys[0]);
    n = 1;
    while (b.next()) {
        if (n > max) return -1;
        b.coordinates(xs[n], ys[n]);
        ++n;
    }
    return n;
}
static int iabs(int a) { return a < 0 ? -a : a; }
static void check_line(const unsigned *xs, const unsigned *ys, int n, int x0, int y0, int x1, int y1, int w, int h) {
    int dx = x1 - x0, dy = y1 - y0, ax = iabs(dx), ay = iabs(dy), steps = ax > ay ? ax : ay;
    sx_check(n == steps + 1, "a line has as many steps as the larger coordinate difference");
    sx_check((int)xs[0] == x0 && (int)ys[0] == y0, "a line begins at its start");
    sx_check((int)xs[n - 1] == x1 && (int)ys[n - 1] == y1, "a line ends at its end");
    for (int i = 0; i < n; ++i) {
        int x = xs[i], y = ys[i];
        sx_check((x >= 0) & (y >= 0) & (x < w) & (y < h), "a line stays in the map");
        int dev = (x - x0) * dy - (y - y0) * dx;
        sx_check((2 * dev <= steps) & (-2 * dev <= steps), "a line strays at most half a cell from the straight segment");
        if (i) {
            int ex = x - (int)xs[i - 1], ey = y - (int)ys[i - 1];
            sx_check((ex >= -1) & (ex <= 1) & (ey >= -1) & (ey <= 1) & ((ex != 0) | (ey != 0)), "consecutive cells of a line are neighbours");
        }
    }
}
// start anywhere in a 200x150 map, end up to LEN cells away
extern "C" void h_line_grid() {
    static const int BW = 200, BH = 150;
    SimpleGridMap2d m(BW, BH, 0.5);
    int x0 = sx_int("x0", 0, BW - 1), y0 = sx_int("y0", 0, BH - 1), dx = sx_conc(sx_int("dx", -LEN, LEN)), dy = sx_conc(sx_int("dy", -LEN, LEN));
    int x1 = x0 + dx, y1 = y0 + dy;
    sx_assume((x1 >= 0) & (x1 < BW) & (y1 >= 0) & (y1 < BH));
    Bresenham2d b;
    b.setGrid(&m, x0, y0, x1, y1);
    unsigned xs[LEN + 3], ys[LEN + 3];
    int n = walk(b, xs, ys, LEN + 1);
    if (n > LEN) sx_reach("long line");
    sx_check(n > 0, "a line ends");
    check_line(xs, ys, n, x0, y0, x1, y1, BW, BH);
    sx_check(!b.next(), "a finished line stays finished");
}
// end points out of the map: nothing is visited, also after an earlier line on the same object
extern "C" void h_line_off() {
    SimpleGridMap2d m(W, H, 1.0);
    Bresenham2d b;
    if (sx_fork(sx_bool("again"))) { b.setGrid(&m, 0, 0, 2, 1); b.next(); sx_reach("reused"); }
    int c[4];
    for (int i = 0; i < 4; ++i) c[i] = sx_int("c", -1000, 1000);
    sx_assume(!(((c[0] >= 0) & (c[0] < W) & (c[1] >= 0) & (c[1] < H)) & ((c[2] >= 0) & (c[2] < W) & (c[3] >= 0) & (c[3] < H))));
    b.setGrid(&m, c[0], c[1], c[2], c[3]);
    sx_check(!b.next(), "a line with an end off the map visits nothing");
    b.set(&m, Point2d(0.5, 0.5), Point2d(-0.5, 0.5));
    sx_check(!b.next(), "a line with an end off the map visits nothing");
    b.set(&m, Point2d(0.5, 7), Point2d(0.5, 0.5));
    sx_check(!b.next(), "a line with an end off the map visits nothing");
}
// the same line from points, as an iterator and as an area; the cells' contents shown on the way
#ifndef LW
#define LW 4
#endif
#ifndef LH
#define LH 3
#endif
extern "C" void h_line_points() {
    SimpleGridMap2d m(LW, LH, 1.0);
    m.setResolution(0.5);
    m.setOrigin(Point2d(-1, 2));
    unsigned char v[LW * LH];
    for (int y = 0; y < LH; ++y) for (int x = 0; x < LW; ++x) { v[y * LW + x] = (x * 7 + y * 31) * 5; m.setValue(x, y, v[y * LW + x]); }
    Point2d p(sx_real("px", -1, -1 + 0.5 * LW), sx_real("py", 2, 2 + 0.5 * LH)), q(sx_real("qx", -1, -1 + 0.5 * LW), sx_real("qy", 2, 2 + 0.5 * LH));
    sx_assume(p.x < -1 + 0.5 * LW && q.x < -1 + 0.5 * LW && p.y < 2 + 0.5 * LH && q.y < 2 + 0.5 * LH);
    unsigned x0, y0, x1, y1;
    m.point2cell(p.x, p.y, x0, y0);
    m.point2cell(q.x, q.y, x1, y1);
    Bresenham2d b, b2;
    b.set(&m, p, q);
    b2.set(&m, p, q);
    unsigned xs[20], ys[20];
    int n = walk(b, xs, ys, 17);
    sx_check(n > 0, "a line ends");
    check_line(xs, ys, n, x0, y0, x1, y1, LW, LH);
    for (int i = 0; i < n; ++i) {
        unsigned char c = v[ys[i] * LW + xs[i]];
        sx_check(b2.value() == c && b2.isFree() == (c <= 50) && b2.isOccupied() == (c >= 200) && b2.isNoInformation() == (c > 50 && c < 200), "a line shows the contents of its current cell");
        Point2d z;
        b2.point(z);
        sx_check(sx_near(z.x, -1 + 0.5 * (xs[i] + 0.5), 1e-9) && sx_near(z.y, 2 + 0.5 * (ys[i] + 0.5), 1e-9), "a line shows the position of its current cell");
        b2.next();
    }
    LineArea a(p, q, &m);
    for (int rep = 0; rep < 2; ++rep) {
        int k = 0;
        a.begin();
        while (a.next()) {
            sx_check(k < n, "a line area visits the cells of the line");
            int x, y;
            a.getCell(x, y);
            xs[k] = x; ys[k] = y;
            ++k;
        }
        sx_check(k == n, "a line area visits the cells of the line");
        check_line(xs, ys, n, x0, y0, x1, y1, LW, LH);
    }
    a.set(Point2d(9, 9), q, &m);
    a.begin();
    sx_check(!a.next(), "a line area with an end off the map has no cells");
    a.set(q, Point2d(-1.25, 2.25), &m);
    a.begin();
    sx_check(!a.next(), "a line area with an end off the map has no cells");
}

// ---------------------------------------------------------------- B04
#ifndef RMAX
#define RMAX 3
#endif
static void check_disc(MapArea2d &a, int cx, int cy, double radius, double res) {
    // visited[dx][dy]
    static const int R = 12;
    unsigned char seen[2 * R + 1][2 * R + 1];
    for (int i = 0; i <= 2 * R; ++i) for (int j = 0; j <= 2 * R; ++j) seen[i][j] = 0;
    a.begin();
    int guard = 0;
    while (a.next()) {
        sx_check(++guard < 1000, "scanning a disc ends");
        int x, y;
        a.getCell(x, y);
        int dx = x - cx, dy = y - cy;
        sx_check(dx >= -R && dx <= R && dy >= -R && dy <= R, "a disc keeps to its surroundings");
        sx_check(!seen[dx + R][dy + R], "a disc visits no cell twice");
        seen[dx + R][dy + R] = 1;
    }
    double one = res;
    for (int dx = -R; dx <= R; ++dx) for (int dy = -R; dy <= R; ++dy) {
        double d = std::sqrt((double)(dx * dx + dy * dy)), t = sx_symbolic() ? 0 : 1e-9;
        if (seen[dx + R][dy + R]) sx_check((d - 1) * res <= radius + t, "a disc has no cell farther than its radius and one cell");
        else sx_check(!((d + 1) * res <= radius - t) && (dx || dy), "a disc covers every cell closer than its radius less one cell");
    }
}
extern "C" void h_disc() {
    static const int DW = 6, DH = 5;
    SimpleGridMap2d m(DW, DH, 1.0);
    double res = sx_real("res", 0.1, 4), radius = sx_real("radius", 0.01, 20);
    sx_assume(radius < RMAX * res);
    m.setResolution(res);
    int cx = sx_conc(sx_int("cx", 0, DW - 1)), cy = sx_conc(sx_int("cy", 0, DH - 1));
    Point2d c(res * (cx + 0.25), res * (cy + 0.75));
    CircleArea a(c, radius, &m);
    check_disc(a, cx, cy, radius, res);
    sx_reach("scanned");
    // moving the disc; moving it off the map leaves it
    a.setCenter(Point2d(res * 1.5, res * 2.5), &m);
    check_disc(a, 1, 2, radius, res);
    a.setCenter(Point2d(res * 100, res * 2.5), &m);
    check_disc(a, 1, 2, radius, res);
    CircleBuffer b(c, radius, &m);
    check_disc(b, cx, cy, radius, res);
    // no cells: centre off the map, radius not positive
    CircleArea off(Point2d(-0.5 * res, res), radius, &m);
    off.begin();
    sx_check(!off.next(), "a disc centred off the map has no cells");
    a.init(c, 0, &m);
    a.begin();
    sx_check(!a.next(), "a disc without radius has no cells");
}
// a buffer saves the map under the disc and puts it back
extern "C" void h_buffer() {
    static const int DW = 4, DH = 3;
    SimpleGridMap2d m(DW, DH, 1.0);
    unsigned char v[DW * DH], n[DW * DH];
    for (int y = 0; y < DH; ++y) for (int x = 0; x < DW; ++x) { v[y * DW + x] = sx_u8("cell"); m.setValue(x, y, v[y * DW + x]); }
    int cx = sx_conc(sx_int("cx", 0, DW - 1)), cy = sx_conc(sx_int("cy", 0, DH - 1));
    double radius = 0.5 * sx_conc(sx_int("r", 1, 7));
    CircleBuffer b(Point2d(cx + 0.5, cy + 0.5), radius, &m);
    bool in[DW * DH];
    for (int i = 0; i < DW * DH; ++i) in[i] = false;
    b.begin();
    while (b.next()) { int x, y; b.getCell(x, y); if (x >= 0 && y >= 0 && x < DW && y < DH) in[y * DW + x] = true; }
    m.getAreaValues(b);
    b.begin();
    while (b.next()) { int x, y; b.getCell(x, y); if (x >= 0 && y >= 0 && x < DW && y < DH) sx_check(b.getValue() == v[y * DW + x], "the buffer holds the map's values"); }
    for (int y = 0; y < DH; ++y) for (int x = 0; x < DW; ++x) { sx_check(m.getValue(x, y) == v[y * DW + x], "reading an area leaves the map alone"); n[y * DW + x] = sx_u8("new"); m.setValue(x, y, n[y * DW + x]); }
    m.setAreaValue(b);
    for (int y = 0; y < DH; ++y) for (int x = 0; x < DW; ++x) sx_check(m.getValue(x, y) == (in[y * DW + x] ? v : n)[y * DW + x], "the buffer restores exactly the cells of the disc");
}

// ---------------------------------------------------------------- B05
struct ListArea : public MapArea2d {
    std::vector<std::pair<int, int> > c;
    std::vector<uint8_t> val;
    int i;
    void begin() { i = -1; }
    bool next() { return ++i < (int)c.size(); }
    void getCell(int &x, int &y) const { x = c[i].first; y = c[i].second; }
    uint8_t getValue() const { return val[i]; }
    void setValue(const uint8_t v) { val[i] = v; }
};
#ifndef CELLS
#define CELLS 3
#endif
static void area_queries(GridMap2d &m, MapArea2d &a, const std::vector<std::pair<int, int> > &cells, unsigned char *v, int w, int h, int lo, int up) {
    bool af = true, ao = false;
    for (size_t k = 0; k < cells.size(); ++k) {
        int x = cells[k].first, y = cells[k].second;
        if (x < 0 || y < 0 || x >= w || y >= h) continue;
        af = af & (v[y * w + x] <= lo);
        ao = ao | (v[y * w + x] >= up);
    }
    bool rf = m.isAreaFree(a), ro = m.isAreaOccupied(a);
    sx_check(rf == af, "an area is free iff all its cells in the map are free");
    sx_check(ro == ao, "an area is occupied iff one of its cells in the map is");
    sx_check(m.isAreaFree(a) == rf && m.isAreaOccupied(a) == ro, "asking again gives the same answer");
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) sx_check(m.getValue(x, y) == v[y * w + x], "asking leaves the map alone");
}
static void area_write(GridMap2d &m, MapArea2d &a, const std::vector<std::pair<int, int> > &cells, unsigned char *v, int w, int h) {
    unsigned char nv = sx_u8("write");
    m.setAreaValue(a, nv);
    for (size_t k = 0; k < cells.size(); ++k) {
        int x = cells[k].first, y = cells[k].second;
        if (x >= 0 && y >= 0 && x < w && y < h) v[y * w + x] = nv;
    }
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) sx_check(m.getValue(x, y) == v[y * w + x], "setting an area changes exactly its cells");
}
// any int: one path per value on the map, one for all those left and one for all those right of it
static int coord(const char *n, int lim) {
    int x = sx_int(n, -2147483647 - 1, 2147483647);
    if (x < 0) return x;
    return x < lim ? sx_conc(x) : x;
}
extern "C" void h_area() {
    static const int w = 2, h = 2;
    SimpleGridMap2d m(w, h, 1.0);
    int lo = sx_u8("lower"), up = sx_u8("upper");
    sx_assume(lo < up);
    m.setLowerThreshold(lo); m.setUpperThreshold(up);
    unsigned char v[w * h];
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { v[y * w + x] = sx_u8("cell"); m.setValue(x, y, v[y * w + x]); }
    ListArea a;
    int n = sx_conc(sx_int("n", 0, CELLS));
    for (int k = 0; k < n; ++k) { int x = coord("x", w), y = coord("y", h); a.c.push_back(std::make_pair(x, y)); a.val.push_back(0); }
    area_queries(m, a, a.c, v, w, h, lo, up);
    m.getAreaValues(a);
    for (int k = 0; k < n; ++k) {
        int x = a.c[k].first, y = a.c[k].second;
        if (x >= 0 && y >= 0 && x < w && y < h) sx_check(a.val[k] == v[y * w + x], "reading an area reads its cells");
    }
    for (int k = 0; k < n; ++k) a.val[k] = sx_u8("v");
    m.setAreaValue(a);
    for (int k = 0; k < n; ++k) {
        int x = a.c[k].first, y = a.c[k].second;
        if (x >= 0 && y >= 0 && x < w && y < h) v[y * w + x] = a.val[k];
    }
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) sx_check(m.getValue(x, y) == v[y * w + x], "writing an area writes its values to its cells");
    area_write(m, a, a.c, v, w, h);
}
// the library's own areas on all map contents
extern "C" void h_area_kinds() {
    static const int w = 3, h = 3;
    SimpleGridMap2d m(w, h, 1.0);
    int lo = 50, up = 200;
    unsigned char v[w * h];
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { v[y * w + x] = sx_u8("cell"); m.setValue(x, y, v[y * w + x]); }
    int x0 = sx_conc(sx_int("x0", 0, w - 1)), y0 = sx_conc(sx_int("y0", 0, h - 1));
    std::vector<std::pair<int, int> > cells;
    MapArea2d *a;
    int kind = sx_conc(sx_int("kind", 0, 2));
    if (kind == 0) {
        int x1 = sx_conc(sx_int("x1", 0, w - 1)), y1 = sx_conc(sx_int("y1", 0, h - 1));
        a = new LineArea(Point2d(x0 + 0.5, y0 + 0.5), Point2d(x1 + 0.5, y1 + 0.5), &m);
        Bresenham2d b;
        b.setGrid(&m, x0, y0, x1, y1);
        do { unsigned x, y; b.coordinates(x, y); cells.push_back(std::make_pair(x, y)); } while (b.next());
    } else {
        // radius of just over one cell: the cell and its four or eight neighbours (at least the four)
        int r = sx_conc(sx_int("r", 0, 1));
        a = kind == 1 ? new CircleArea(Point2d(x0 + 0.5, y0 + 0.5), r ? 1.25 : 0.75, &m) : new CircleBuffer(Point2d(x0 + 0.5, y0 + 0.5), r ? 1.25 : 0.75, &m);
        a->begin();
        while (a->next()) { int x, y; a->getCell(x, y); cells.push_back(std::make_pair(x, y)); }
        bool self = false;
        for (size_t i = 0; i < cells.size(); ++i) if (cells[i].first == x0 && cells[i].second == y0) self = true;
        sx_check(self, "a disc contains the cell of its centre");
    }
    area_queries(m, *a, cells, v, w, h, lo, up);
    area_write(m, *a, cells, v, w, h);
    delete a;
}
