// Knot vectors and the Cox-de Boor definition of B-splines.
#pragma once
#include "common.h"
typedef std::vector<double> DV;
// knot vector of degree p with given interior multiplicities; the interior
// knots are symbolic and ordered, or fixed
struct Kn {
  int p, n;               // degree, number of basis functions
  DV t, u;                // all knots, distinct knots
  std::vector<int> last;  // index of the last copy of each distinct knot
};
static Kn make(int p, const std::vector<int> &mult, bool symbolic, const char *name) {
  Kn k;
  k.p = p;
  k.u.push_back(0);
  for (int i = 0; i <= p; ++i) k.t.push_back(0);
  k.last.push_back(p);
  const int m = mult.size();
  for (int i = 0; i < m; ++i) {
    double v = m == 2 ? (i ? 0.75 : 0.125) : (i + 1) / (double)(m + 1);
    if (symbolic) {
      v = bsx_real(ora::nm(name, i).c_str(), 0, 1);
      bsx_assume((v - k.u.back() >= 0.0625) & (v <= 1 - 0.0625));
    }
    k.u.push_back(v);
    for (int j = 0; j < mult[i]; ++j) k.t.push_back(v);
    k.last.push_back((int)k.t.size() - 1);
  }
  k.u.push_back(1);
  for (int i = 0; i <= p; ++i) k.t.push_back(1);
  k.n = (int)k.t.size() - p - 1;
  return k;
}
// Cox-de Boor; span is the index of the last knot not right of x
static double N(const Kn &k, int i, int p, double x, int span) {
  if (p == 0) return i == span ? 1. : 0.;
  double r = 0;
  if (span >= i && span <= i + p - 1) r += (x - k.t[i]) / (k.t[i + p] - k.t[i]) * N(k, i, p - 1, x, span);
  if (span >= i + 1 && span <= i + p) r += (k.t[i + p + 1] - x) / (k.t[i + p + 1] - k.t[i + 1]) * N(k, i + 1, p - 1, x, span);
  return r;
}
static double dN(const Kn &k, int i, int p, double x, int span) {
  if (p == 0) return 0;
  double r = 0;
  if (span >= i && span <= i + p - 1) r += p / (k.t[i + p] - k.t[i]) * N(k, i, p - 1, x, span);
  if (span >= i + 1 && span <= i + p) r -= p / (k.t[i + p + 1] - k.t[i + 1]) * N(k, i + 1, p - 1, x, span);
  return r;
}
// any point of the knot range, split by the distinct interval it lies in;
// intervals are closed at the left, the last one also at the right
static double point(const Kn &k, const char *name, int &span) {
  const int last = (int)k.u.size() - 2;
  int e = bsx_choice((std::string(name) + "_i").c_str(), 0, last);
  double x = bsx_real(name, 0, 1);
  if (e == last)
    bsx_assume((x >= k.u[e]) & (x <= 1));
  else
    bsx_assume((x >= k.u[e]) & (x < k.u[e + 1]));
  span = k.last[e];
  return x;
}
