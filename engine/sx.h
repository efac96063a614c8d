// Harness interface. Under the symbolic executor these are solver variables and
// queries; in the native replay they read the counterexample file.
#pragma once
#include <cmath>
extern "C" {
int sx_int(const char *name, int lo, int hi);          // any int in [lo,hi]
unsigned char sx_u8(const char *name);
unsigned sx_u32(const char *name);
bool sx_bool(const char *name);
double sx_real(const char *name, double lo, double hi); // any real / any finite double in range
double sx_f64(const char *name);                        // any double bit pattern (fp mode)
double sx_angle(const char *name);                      // any angle in [-pi,pi] (real mode)
double sx_clamp(double angle);                          // the same direction in [-pi,pi) (real mode)
int sx_conc(int v);                                     // case split over every feasible value
bool sx_fork(bool b);                                   // case split
void sx_assume(bool b);
void sx_check(bool b, const char *msg);
void sx_fail(const char *msg);
void sx_reach(const char *label);                       // vacuity witness
void sx_stop();                                         // end of path
bool sx_near(double a, double b, double tol);
bool sx_symbolic();
bool sx_real_mode();
void sx_logi(const char *name, int v);
void sx_logd(const char *name, double v);
}
