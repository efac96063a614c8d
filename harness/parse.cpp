// Patterns of Reeds-Shepp curves (ReedsShepp/CurveGenerator).
#include "sx.h"
#include <cstring>
#include <sstream>
#include <string>
#include <cslibs_path_planning/ReedsShepp/CurveGenerator.h>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
using namespace lib_path;
#ifndef CHARS
#define CHARS 5
#endif
#ifndef PLAN
#define PLAN 4
#endif
static const char ALPHABET[] = "LRS|()bp";
// which character of the alphabet, or any other one
static char classify(unsigned char c) {
    for (int i = 0; i < 8; ++i) if (sx_fork(c == (unsigned char)ALPHABET[i])) return ALPHABET[i];
    return '?';
}
static std::string text(int n) {
    std::string s;
    for (int i = 0; i < n; ++i) s.push_back((char)sx_u8("char"));
    return s;
}
// the grammar, written down independently: sequence = { '|' | 'L' | 'R' | 'S' | '(' { 'b' | 'p' } ')' }, and b only behind an arc
static bool well_formed(const std::string &s, std::string &plain) {
    bool inside = false;
    char last = 0;
    plain.clear();
    for (size_t i = 0; i < s.size(); ++i) {
        char c = classify((unsigned char)s[i]);
        plain.push_back(c);
        if (c == '?') return false;
        if (inside) {
            if (c == ')') inside = false;
            else if (c == 'b') { if (last != 'L' && last != 'R') return false; }
            else if (c != 'p') return false;
        } else if (c == '(') inside = true;
        else if (c == 'L' || c == 'R' || c == 'S') last = c;
        else if (c != '|') return false;
    }
    return !inside;
}
extern "C" void h_parse() {
    std::string s = text(sx_conc(sx_int("length", 0, CHARS)));
    CurveGenerator g;
    std::ostringstream out;
    bool got = g.parse(s, out);
    std::string plain;
    bool good = well_formed(s, plain);
    sx_reach(good ? "well-formed" : "malformed");
    sx_check(got == good, "parsing reports success exactly for well-formed patterns");
}
static Curve *plan(CurveGenerator &g, const SimpleGridMap2d &m) {
    return g.find_path(Pose2d(10.5, 10.25, 0.3), Pose2d(30.25, 22.5, 1.1), &m);
}
static SimpleGridMap2d *world() {
    SimpleGridMap2d *m = new SimpleGridMap2d(48, 40, 1.0);
    m->setLowerThreshold(50); m->setUpperThreshold(200); m->setNoInformationValue(127);
    for (int y = 0; y < 40; ++y) for (int x = 0; x < 48; ++x) m->setValue(x, y, 0);
    return m;
}
static void settings(CurveGenerator &g) { g.set_circle_radius(4); g.set_max_waypoint_distance(1.5); g.set_cost_backwards(2.5); }
static double weight(Curve *c) { return c ? c->weight() : -1; }
// a text offered between two patterns: rejected texts leave no trace, accepted ones are one more choice, whatever they ask for
extern "C" void h_between() {
    std::string s = text(sx_conc(sx_int("length", 0, PLAN)));
    SimpleGridMap2d *m = world();
    CurveGenerator g, without;
    std::ostringstream out;
    settings(g); settings(without);
    g.parse("|RSL", out); without.parse("|RSL", out);
    g.parse(s, out);
    g.parse("L|S|R", out); without.parse("L|S|R", out);
    std::string plain;
    bool good = well_formed(s, plain);
    Curve *a = plan(g, *m), *b = plan(without, *m);
    double best = weight(b);
    sx_check(best > 0, "the patterns before and after are still there");
    if (good && !plain.empty()) {
        CurveGenerator only;
        settings(only);
        only.parse(plain, out);
        Curve *c = plan(only, *m);
        double w = weight(c);
        if (w >= 0) { sx_reach("another choice"); if (w < best) { best = w; sx_reach("better choice"); } }
        else sx_reach("no curve");
    }
    if (!good) sx_reach("rejected");
    sx_check(weight(a) == best, "every accepted pattern is one more choice, every rejected one is none");
}
