// Native implementation of the harness interface, for replays.
// argv: inputs file ("name value" per line), harness function via dlsym.
#include "bsx.h"
#include <dlfcn.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <exception>
#include <map>
#include <string>
#include <fstream>
#include <unistd.h>
static std::map<std::string, std::string> in;
static int fails = 0, expect_ = 0, trace = 0;
static double val(const char *n, double lo, double hi) {
  auto it = in.find(n);
  double v;
  if (it == in.end()) {
    v = 0;
    if (!(v >= lo)) v = lo;
    if (!(v <= hi)) v = hi;
    if (lo == 0 && hi == 1) v = 0.5;
  } else v = strtod(it->second.c_str(), nullptr);
  if (v < lo) v = lo;
  if (v > hi) v = hi;
  return v;
}
static long ival(const char *n, long lo, long hi) {
  auto it = in.find(n);
  long v = it == in.end() ? (lo > 0 ? lo : hi < 0 ? hi : 0) : strtol(it->second.c_str(), nullptr, 10);
  if (v < lo) v = lo;
  if (v > hi) v = hi;
  return v;
}
static void fail(const char *m) {
  printf("REPLAY-FAIL %s\n", m);
  fflush(stdout);
  ++fails;
}
extern "C" {
double bsx_real(const char *n, double lo, double hi) { return val(n, lo, hi); }
int bsx_int(const char *n, int lo, int hi) { return (int)ival(n, lo, hi); }
long bsx_long(const char *n, long lo, long hi) { return ival(n, lo, hi); }
int bsx_choice(const char *n, int lo, int hi) { return (int)ival(n, lo, hi); }
void bsx_assume(int c) {
  if (!c) {
    printf("REPLAY-ASSUME\n");
    fflush(stdout);
    _exit(fails ? 1 : 4);
  }
}
void bsx_assert(int c, const char *m) {
  if (trace) printf("T assert %d %s\n", c != 0, m);
  if (!c) fail(m);
}
void bsx_equal(double a, double b, const char *m) {
  if (trace) printf("T equal %.9e %.9e %s\n", a, b, m);
  if (!(std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)))) {
    printf("  lhs=%.17g rhs=%.17g\n", a, b);
    fail(m);
  }
}
void bsx_close(double a, double b, double tol, const char *m) {
  if (trace) printf("T close %.9e %.9e %s\n", a, b, m);
  if (!(std::fabs(a - b) <= tol)) {
    printf("  lhs=%.17g rhs=%.17g tol=%g\n", a, b, tol);
    fail(m);
  }
}
void bsx_cover(const char *) {}
static double ufv(const char *n, double x, double y, double z) {
  unsigned h = 2166136261u;
  for (const char *c = n; *c; ++c) h = (h ^ (unsigned char)*c) * 16777619u;
  double s = (h % 1000) / 1000.0;
  return std::sin(1.3 * x + s) + 0.7 * std::cos(0.9 * y - s) * x + 0.3 * z * z - 0.2 * z * y + s;
}
double bsx_uf1(const char *n, double x) { return ufv(n, x, 0, 0); }
double bsx_uf2(const char *n, double x, double y) { return ufv(n, x, y, 0); }
double bsx_uf3(const char *n, double x, double y, double z) { return ufv(n, x, y, z); }
double bsx_exp(double x) { return std::exp(x); }
void bsx_stop(void) {
  fflush(stdout);
  _exit(fails ? 1 : 0);
}
int bsx_symbolic(void) { return 0; }
void bsx_expect_abort(int on) { expect_ = on; }
void bsx_fork_abs(int) {}
}
static void onSig(int s) {
  if (expect_) _exit(fails ? 1 : 0);
  printf("REPLAY-FAIL signal %d\n", s);
  fflush(stdout);
  _exit(1);
}
int main(int argc, char **argv) {
  if (argc < 3) return 9;
  trace = getenv("BSX_TRACE") != nullptr;
  std::ifstream f(argv[2]);
  std::string a, b;
  while (f >> a >> b) in[a] = b;
  signal(SIGABRT, onSig);
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) {
    printf("no harness\n");
    return 9;
  }
  try {
    fn();
  } catch (std::exception &e) {
    if (expect_) return fails ? 1 : 0;
    printf("REPLAY-FAIL exception %s\n", e.what());
    return 1;
  }
  return fails ? 1 : 0;
}
