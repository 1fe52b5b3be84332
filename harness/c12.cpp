#include "common.h"
#include <Bembel/Quadrature>
#include <Bembel/src/util/Constants.hpp>
using namespace Bembel;

static void rule1(const Quadrature<1> &Q, int n, double tol) {
  bsx_assert(Q.xi_.cols() == n && Q.w_.size() == n, "number of points");
  for (int i = 0; i < n; ++i) {
    bsx_assert(Q.xi_(0, i) > 0 && Q.xi_(0, i) < 1, "points lie strictly inside");
    bsx_assert(Q.w_(i) > 0, "weights are positive");
    for (int j = 0; j < i; ++j) bsx_assert(Q.xi_(0, i) != Q.xi_(0, j), "points are distinct");
  }
  double q = 0, e = 0;
  for (int k = 0; k < 2 * n; ++k) {
    double c = bsx_real(ora::nm("c", k).c_str(), -1, 1), m = 0;
    for (int i = 0; i < n; ++i) m += Q.w_(i) * ora::ipow(Q.xi_(0, i), k);
    q += c * m;
    e += c * (1. / (k + 1));
  }
  bsx_close(q, e, tol, "polynomials of degree 2n-1 are integrated exactly");
}
//! fn=c12_line tier=quick bounds="all 51 one-dimensional rules, every polynomial of degree 2n-1" cost=30
extern "C" void c12_line() {
  static GaussLegendre<Constants::maximum_quadrature_degree> GL;
  int k = bsx_choice("index", 0, Constants::maximum_quadrature_degree);
  rule1(GL[k], k + 1, k < 20 ? 1e-13 : 1e-12);
  bsx_cover("end");
}
static void rule2(const Cubature &Q, int n, bool full) {
  bsx_assert(Q.xi_.cols() == n * n && Q.w_.size() == n * n, "number of points");
  for (int i = 0; i < n * n; ++i) {
    bsx_assert(Q.xi_(0, i) > 0 && Q.xi_(0, i) < 1 && Q.xi_(1, i) > 0 && Q.xi_(1, i) < 1, "points lie strictly inside");
    bsx_assert(Q.w_(i) > 0, "weights are positive");
  }
  double q = 0, e = 0;
  std::vector<double> px(n * n);
  for (int i = 0; i < n * n; ++i) px[i] = Q.w_(i);
  for (int a = 0; a < 2 * n; ++a) {
    std::vector<double> p = px;
    for (int b = 0; b < 2 * n; ++b) {
      if (full || a == 0 || b == 0 || a == b) {
        double c = bsx_real(ora::nm("c", a, b).c_str(), -1, 1), s = 0;
        for (int i = 0; i < n * n; ++i) s += p[i];
        q += c * s;
        e += c * (1. / ((a + 1.) * (b + 1.)));
      }
      for (int i = 0; i < n * n; ++i) p[i] *= Q.xi_(1, i);
    }
    for (int i = 0; i < n * n; ++i) px[i] *= Q.xi_(0, i);
  }
  bsx_close(q, e, 1e-11, "polynomials of degree 2n-1 per direction are integrated exactly");
}
static void square(int k, bool full) {
  static GaussSquare<Constants::maximum_quadrature_degree> GS;
  Cubature Q = GS[k];
  rule2(Q, k + 1, full);
  bsx_cover("end");
}
//! fn=c12_square tier=quick bounds="two-dimensional rules with 1..13 points per direction, every polynomial of degree 2n-1 per direction" cost=30
extern "C" void c12_square() { square(bsx_choice("index", 0, 12), true); }
//! fn=c12_square_all tier=quick bounds="all 51 two-dimensional rules, polynomials in one variable and of equal degrees" cost=30
extern "C" void c12_square_all() { square(bsx_choice("index", 0, Constants::maximum_quadrature_degree), false); }
