// Native side of the harness interface: replays the inputs of a counterexample.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <utility>
static std::vector<std::pair<std::string, std::string>> vals;
static size_t pos;
static void load() {
    static bool done = false;
    if (done) return;
    done = true;
    const char *f = getenv("SX_REPLAY");
    FILE *h = f ? fopen(f, "r") : 0;
    char n[256], v[256];
    while (h && fscanf(h, " %255[^\t]\t%255s", n, v) == 2) vals.push_back({n, v});
    if (h) fclose(h);
}
static const char *next(const char *name) {
    load();
    if (pos >= vals.size()) { return 0; }
    if (vals[pos].first != name) { fprintf(stderr, "REPLAY-DIVERGED: wants %s, has %s\n", name, vals[pos].first.c_str()); exit(70); }
    return vals[pos++].second.c_str();
}
extern "C" {
int sx_int(const char *n, int lo, int hi) { const char *v = next(n); int r = v ? (int)strtoull(v, 0, 10) : lo; if (r < lo) r = lo; if (r > hi) r = hi; return r; }
unsigned char sx_u8(const char *n) { const char *v = next(n); return v ? (unsigned char)strtoul(v, 0, 10) : 0; }
unsigned sx_u32(const char *n) { const char *v = next(n); return v ? (unsigned)strtoul(v, 0, 10) : 0; }
bool sx_bool(const char *n) { const char *v = next(n); return v && strtoul(v, 0, 10); }
double sx_real(const char *n, double lo, double hi) { const char *v = next(n); double r = v ? strtod(v, 0) : lo; if (r < lo) r = lo; if (r > hi) r = hi; return r; }
double sx_f64(const char *n) { const char *v = next(n); return v ? strtod(v, 0) : 0; }
double sx_angle(const char *n) { return sx_real(n, -M_PI, M_PI); }
double sx_clamp(double a) { while (a >= M_PI) a -= 2 * M_PI; while (a < -M_PI) a += 2 * M_PI; return a; }
int sx_conc(int v) { return v; }
bool sx_fork(bool b) { return b; }
void sx_assume(bool b) { if (!b) { fprintf(stderr, "REPLAY-ASSUME-FAILED\n"); exit(71); } }
void sx_check(bool b, const char *m) { if (!b) { printf("REPLAY-VIOLATION %s\n", m); fflush(stdout); exit(42); } }
void sx_fail(const char *m) { sx_check(false, m); }
void sx_reach(const char *) {}
void sx_stop() { printf("REPLAY-END\n"); fflush(stdout); exit(0); }
bool sx_near(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
bool sx_symbolic() { return false; }
bool sx_real_mode() { return false; }
void sx_logi(const char *n, int v) { if (getenv("SX_LOG")) fprintf(stderr, "LOG %s=%d\n", n, v); }
void sx_logd(const char *n, double v) { if (getenv("SX_LOG")) fprintf(stderr, "LOG %s=%.17g\n", n, v); }
int rand() { load(); if (pos < vals.size() && vals[pos].first == "rand") return atoi(vals[pos++].second.c_str()); return 0; }
void SX_ENTRY();
}
int main() { SX_ENTRY(); printf("REPLAY-END\n"); return 0; }
