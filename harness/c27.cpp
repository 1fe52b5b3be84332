// C27: stopwatch
#include "common.h"
#include <numeric>
#include <string>
#include <cassert>
#include <chrono>
static std::vector<double> g_log;  // all clock readings, nanoseconds
static int g_n = 0;
// the library reads this clock: non-decreasing, arbitrary otherwise
struct FakeClock {
  typedef std::chrono::duration<double, std::nano> duration;
  typedef duration::rep rep;
  typedef duration::period period;
  typedef std::chrono::time_point<FakeClock> time_point;
  static const bool is_steady = true;
  static time_point now() {
    double d = bsx_real(ora::nm("dt", g_n++).c_str(), 0, 4e9);
    double t = (g_log.empty() ? 1e9 : g_log.back()) + d;
    g_log.push_back(t);
    return time_point(duration(t));
  }
};
namespace std {
namespace chrono {
typedef ::FakeClock bsx_fake_clock;
}
}  // namespace std
#define high_resolution_clock bsx_fake_clock
#define steady_clock bsx_fake_clock
#define system_clock bsx_fake_clock
#include <Bembel/src/IO/Stopwatch.hpp>

// value lies between the nanosecond bounds
static void between(double v, double lo, double hi, const char *m) {
  bsx_assert((v >= 1e-9 * lo - 1e-9) & (v <= 1e-9 * hi + 1e-9), m);
}
struct Span {
  int a, b;  // readings of one call
  double first() const { return g_log[a]; }
  double last() const { return g_log[b - 1]; }
};
template <class F>
static Span call(F f) {
  Span s;
  s.a = g_log.size();
  f();
  s.b = g_log.size();
  bsx_assert(s.b > s.a, "the clock is read");
  return s;
}
// sessions of start, some laps, stop on one watch; laps[i] laps in session i
static void sessions(int n, const int *laps) {
  Bembel::IO::Stopwatch w;
  for (int s = 0; s < n; ++s) {
    Span st = call([&] { w.start(); }), prev = st;
    double inner = 0;  // time between the calls
    std::vector<double> l;
    for (int i = 0; i < laps[s]; ++i) {
      double v = 0;
      Span c = call([&] { v = w.lap(); });
      between(v, c.first() - prev.last(), c.last() - prev.first(), "lap is the time since the previous lap or start");
      inner += c.first() - prev.last();
      l.push_back(v);
      std::vector<double> d = w.get_data();
      bsx_assert(d.size() == l.size(), "number of laps");
      for (int k = 0; k <= i; ++k) bsx_assert(d[k] == l[k], "recorded laps");
      prev = c;
    }
    double v = 0;
    Span c = call([&] { v = w.stop(); });
    inner += c.first() - prev.last();
    between(v, inner, c.last() - st.first(), "stop is the time since start");
    std::vector<double> d = w.get_data();
    bsx_assert(d.size() >= l.size(), "laps remain available");
    for (int k = 0; k < l.size(); ++k) bsx_assert(d[k] == l[k], "laps remain available");
  }
}
//! fn=c27_watch tier=quick bounds="all non-decreasing clocks, one or two sessions of start, 0..3 laps, stop" cost=30
extern "C" void c27_watch() {
  int laps[2] = {0, 0};
  const int n = bsx_choice("sessions", 1, 2);
  for (int i = 0; i < n; ++i) laps[i] = bsx_choice(ora::nm("laps", i).c_str(), 0, 3);
  sessions(n, laps);
  bsx_cover("end");
}
//! fn=c27_deep tier=thorough bounds="all non-decreasing clocks, three sessions of start, 0..4 laps, stop" cost=60
extern "C" void c27_deep() {
  int laps[3];
  for (int i = 0; i < 3; ++i) laps[i] = bsx_choice(ora::nm("laps", i).c_str(), 0, 4);
  sessions(3, laps);
  bsx_cover("end");
}
//! fn=c27_tic tier=quick bounds="all non-decreasing clocks, up to three tic calls and toc calls in every order" cost=30
extern "C" void c27_tic() {
  Bembel::IO::Stopwatch w;
  Span t = call([&] { w.tic(); });
  for (int i = 0; i < 4; ++i) {
    if (bsx_choice(ora::nm("op", i).c_str(), 0, 1)) {
      t = call([&] { w.tic(); });
    } else {
      double v = 0;
      Span c = call([&] { v = w.toc(); });
      between(v, c.first() - t.last(), c.last() - t.first(), "toc is the time since tic");
    }
  }
  bsx_cover("end");
}
