// Harness interface of the symbolic engine.  The same harness is linked with sxrt.cpp (symbolic,
// built through the SxPass rewriting pass) and with sxnat.cpp (native replay, untouched code).
#pragma once
#include <cstddef>
extern "C" {
double sx_real(const char* name, double lo, double hi);  // symbolic real in [lo,hi]
int sx_choice(const char* name, int n);                   // case split over 0..n-1
void sx_assume_ge(double a, double b);                    // a >= b (no fork)
void sx_assume_gt(double a, double b);
void sx_assume_eq(double a, double b);
void sx_close(const char* name, double a, double b, double tol);  // |a-b| <= tol
void sx_ge(const char* name, double a, double b, double tol);     // a >= b - tol
void sx_true(const char* name, int cond);                         // concrete on this path
void sx_observe(const char* name, double v);                      // engine validation only
double sx_diff(const char* name, double y, double x);             // d y / d x of the traced code
double sx_named(const char* name, double v);  // gives v a name: fresh symbol defined equal to v
int sx_known(double v);  // v does not depend on a symbol
int sx_is_native();
int sx_thorough();  // 1 in the thorough tier: larger bounds
void sx_option(const char* name, double v);
void sx_cut();  // end this path silently (outside the stated bound)
void sx_harness();  // the harness
}
