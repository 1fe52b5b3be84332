// Shared oracles of the harnesses: textbook definitions, written without any
// function of the library under test.
#pragma once
#include "bsx.h"
#include <Eigen/Dense>
#include <string>
#include <vector>
namespace ora {
inline double ipow(double x, int n) {
  double r = 1;
  for (int i = 0; i < n; ++i) r *= x;
  return r;
}
inline double binom(int n, int k) {
  if (k < 0 || k > n) return 0;
  double r = 1;
  for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i;
  return r;
}
// Bernstein polynomial k of degree p
inline double bern(int p, int k, double x) {
  if (k < 0 || k > p) return 0;
  return binom(p, k) * ipow(x, k) * ipow(1 - x, p - k);
}
// its derivative, from the product rule
inline double dbern(int p, int k, double x) {
  if (k < 0 || k > p) return 0;
  double r = 0;
  if (k > 0) r += binom(p, k) * k * ipow(x, k - 1) * ipow(1 - x, p - k);
  if (k < p) r -= binom(p, k) * (p - k) * ipow(x, k) * ipow(1 - x, p - k - 1);
  return r;
}
// one name per index
inline std::string nm(const char *b, int i, int j = -1, int k = -1) {
  std::string s = b;
  s += std::to_string(i);
  if (j >= 0) s += "_" + std::to_string(j);
  if (k >= 0) s += "_" + std::to_string(k);
  return s;
}
}  // namespace ora
