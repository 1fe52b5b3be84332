// Harness interface.  In the symbolic build these are external and handled by
// the engine; in the native (replay) build bsx_native.cpp implements them.
#pragma once
#include <cmath>
extern "C" {
// symbolic double in [lo,hi]
double bsx_real(const char *name, double lo, double hi);
// symbolic 32 bit integer in [lo,hi]
int bsx_int(const char *name, int lo, int hi);
// symbolic 64 bit integer
long bsx_long(const char *name, long lo, long hi);
// integer in [lo,hi], every value explored on its own path
int bsx_choice(const char *name, int lo, int hi);
void bsx_assume(int cond);
void bsx_assert(int cond, const char *msg);
// exact equality over the reals (natively: up to rounding)
void bsx_equal(double a, double b, const char *msg);
// |a-b| <= tol
void bsx_close(double a, double b, double tol, const char *msg);
// this location is reachable (witness against vacuity)
void bsx_cover(const char *msg);
// uninterpreted user function; natively a fixed smooth function
double bsx_uf1(const char *name, double x);
double bsx_uf2(const char *name, double x, double y);
double bsx_uf3(const char *name, double x, double y, double z);
double bsx_exp(double x);
// ends the path silently
void bsx_stop(void);
// 1 in the engine, 0 natively
int bsx_symbolic(void);
// an exception or abort from here on is expected (1) or a violation (0)
void bsx_expect_abort(int on);
// absolute values (and roots of squares) split the path by the sign
void bsx_fork_abs(int on);
}
