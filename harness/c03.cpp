#include "common.h"
#include <Bembel/Spline>
#include <complex>
using namespace Bembel;
typedef std::vector<double> DV;

static bool in(double x, double a, double b) { return (x >= a) & (x <= b); }

// the located interval contains x; its local coordinate lies in [0,1] and is
// the affine one
static void locate(const DV &u, double x) {
  const int n = u.size();
  int l = Spl::FindLocationInKnotVector(x, u);
  bsx_assert((l >= 0) & (l <= n - 2), "located interval in range");
  bool ok = false, last = false, r01 = true, e0 = true;
  for (int i = 0; i < n - 1; ++i) {
    if (l == i) {
      // half open intervals, the last one closed
      ok = (u[i] <= x) & ((x < u[i + 1]) | ((i == n - 2) & (x <= u[i + 1])));
      if (bsx_symbolic()) last = i == n - 2;
      double r = Spl::Rescale(x, u[i], u[i + 1]);
      r01 = in(r, 0, 1);
      // exact at the ends
      e0 = (!(x == u[i]) | (r == 0)) & (!(x == u[i + 1]) | (r == 1));
    }
  }
  bsx_assert(ok, "located interval contains the point");
  bsx_assert(r01, "local coordinate in the unit interval");
  bsx_assert(e0, "local coordinate is 0 and 1 at the ends of the interval");
}

static void uniform(int imax, int rmax, int pmax) {
  const int big[] = {15, 16, 31, 32, 63, 127};
  int ii = bsx_choice("interior", 0, imax);
  int interior = ii <= 8 ? ii : big[ii - 9];
  int rep = bsx_choice("rep", 1, rmax);
  int p = bsx_choice("p", 1, pmax);
  DV t = Spl::MakeUniformKnotVector(p, interior, rep);
  bsx_assert((int)t.size() == 2 * p + interior * rep, "number of knots");
  if (rep == 1) {
    DV t1 = Spl::MakeUniformKnotVector(p, interior);
    bsx_assert(t1 == t, "repetition one is the default");
  }
  bool open = true, sorted = true, pos = true;
  for (int i = 0; i < p; ++i) open &= t[i] == 0 && t[t.size() - 1 - i] == 1;
  for (size_t i = 1; i < t.size(); ++i) sorted &= t[i - 1] <= t[i];
  for (int i = 0; i < interior; ++i)
    for (int r = 0; r < rep; ++r)
      pos &= std::abs(t[p + i * rep + r] * (interior + 1) - (i + 1)) < 1e-12 && t[p + i * rep + r] == t[p + i * rep];
  bsx_assert(open, "knot vector is open");
  bsx_assert(sorted, "knot vector is sorted");
  bsx_assert(pos, "interior knots are equidistant with the multiplicity");
  bsx_assert(Spl::GetPolynomialDegreeFromKnotVector(t) == p, "order of the knot vector");
  DV u = Spl::ExtractUniqueKnotVector(t);
  bool uq = (int)u.size() == interior + 2 && u[0] == 0 && u.back() == 1;
  for (int i = 0; uq && i < interior; ++i) uq = u[i + 1] == t[p + i * rep];
  bsx_assert(uq, "distinct knots");
  if (rep == 1 && p == 1) locate(u, bsx_real("x", 0, 1));
  bsx_cover("end");
}
//! fn=c03_uniform tier=quick bounds="uniform knot vectors with 0..8 and 15,16,31,32 interior knots, repetition 1..3, order 1..4; every real x in [0,1], exact arithmetic of the local coordinate"
extern "C" void c03_uniform() { uniform(12, 3, 4); }
//! fn=c03_ieee tier=quick mode=fp bounds="uniform knot vectors with 0..4 interior knots; every IEEE double x in [0,1], IEEE arithmetic" cost=40
extern "C" void c03_ieee() { uniform(4, 1, 1); }
//! fn=c03_ieee_deep tier=thorough mode=fp bounds="uniform knot vectors with 0..8 and 15,16 interior knots, repetition 1..2, order 1..2; every IEEE double x in [0,1], IEEE arithmetic"
extern "C" void c03_ieee_deep() { uniform(10, 2, 2); }
//! fn=c03_uniform_deep tier=thorough bounds="as c03_uniform, also 63 and 127 interior knots, repetition 1..4"
extern "C" void c03_uniform_deep() { uniform(14, 4, 4); }

//! fn=c03_any tier=quick mode=fp bounds="every knot sequence 0 < t_1 <= ... <= t_m < 1, m = 0..3, of IEEE doubles where consecutive knots are equal or more than the merging tolerance apart; every IEEE double x in [0,1]"
static void any(int lo, int hi) {
  int m = bsx_choice("m", lo, hi);
  DV t(1, 0.);
  DV u(1, 0.);
  for (int i = 0; i < m; ++i) {
    if (i > 0 && bsx_choice(ora::nm("same", i).c_str(), 0, 1)) {
      t.push_back(t.back());
      continue;
    }
    double v = bsx_real(ora::nm("t", i).c_str(), 0, 1);
    bsx_assume((v > t.back() + 2e-6) & (v < 1 - 2e-6));
    t.push_back(v);
    u.push_back(v);
  }
  t.push_back(1);
  u.push_back(1);
  DV uu = Spl::ExtractUniqueKnotVector(t);
  bsx_assert(uu.size() == u.size(), "number of distinct knots");
  if (uu.size() != u.size()) return;
  bool same = true;
  for (size_t i = 0; i < u.size(); ++i) same &= u[i] == uu[i];
  bsx_assert(same, "distinct knots");
  double x = bsx_real("x", 0, 1);
  const int n = u.size();
  int l = Spl::FindLocationInKnotVector(x, u);
  bool ok = false;
  for (int i = 0; i < n - 1; ++i)
    ok |= (l == i) & (u[i] <= x) & ((x < u[i + 1]) | ((i == n - 2) & (x <= u[i + 1])));
  bsx_assert(ok, "located interval contains the point");
  bsx_cover("end");
}
extern "C" void c03_any() { any(0, 3); }
//! fn=c03_any_deep tier=thorough mode=fp bounds="as c03_any with m = 4..5"
extern "C" void c03_any_deep() { any(4, 5); }

//! fn=c03_rescale tier=quick bounds="all reals 0 <= a < b <= 1, a <= x <= b (exact arithmetic)"
extern "C" void c03_rescale() {
  double a = bsx_real("a", 0, 1), b = bsx_real("b", 0, 1), s = bsx_real("s", 0, 1);
  bsx_assume(a + 0.0009765625 <= b);
  double x = a + s * (b - a);
  double r = Spl::Rescale(x, a, b);
  bsx_equal(r, s, "rescaled coordinate is the affine one");
  bsx_cover("end");
}

//! fn=c03_degree tier=quick mode=fp bounds="order 1..8 with any first interior knot (IEEE double) above 1e-6"
extern "C" void c03_degree() {
  int p = bsx_choice("p", 1, 8);
  DV t(p, 0.);
  if (bsx_choice("inner", 0, 1)) {
    double v = bsx_real("t", 0, 1);
    bsx_assume((v > 1e-6) & (v < 1));
    t.push_back(v);
  }
  for (int i = 0; i < p; ++i) t.push_back(1);
  bsx_assert(Spl::GetPolynomialDegreeFromKnotVector(t) == p, "order of the knot vector");
  DV b = Spl::MakeBezierKnotVector(p);
  bool ok = (int)b.size() == 2 * p;
  for (int i = 0; ok && i < 2 * p; ++i) ok = b[i] == (i < p ? 0 : 1);
  bsx_assert(ok, "Bezier knot vector");
  bsx_cover("end");
}

// interpolation on every knot interval reproduces piecewise polynomials
template <typename T>
static void interp(int p, int m, const std::vector<std::vector<T>> &c) {
  DV u(1, 0.);
  for (int i = 0; i < m; ++i) u.push_back((i + 1) / (double)(m + 1));
  u.push_back(1);
  DV mask = Spl::MakeInterpolationMask(p + 1);
  bsx_assert((int)mask.size() == p + 1, "number of interpolation points");
  bool inside = true;
  for (int i = 0; i <= p; ++i) inside &= mask[i] > 0 && mask[i] < 1 && (i == 0 || mask[i] > mask[i - 1]);
  bsx_assert(inside, "interpolation points distinct and interior");
  DV pts = Spl::MakeInterpolationPoints<double>(u, mask);
  bsx_assert((int)pts.size() == (m + 1) * (p + 1), "number of points");
  std::vector<T> val;
  for (int e = 0; e <= m; ++e)
    for (int j = 0; j <= p; ++j) {
      double x = pts[e * (p + 1) + j];
      bsx_close(x, u[e] + mask[j] * (u[e + 1] - u[e]), 1e-14, "points are mapped into their interval");
      T v(0);
      for (int i = 0; i <= p; ++i) v += c[e][i] * ora::bern(p, i, (x - u[e]) / (u[e + 1] - u[e]));
      val.push_back(v);
    }
  std::vector<T> out((m + 1) * (p + 1), T(5));
  Spl::GetCoefficients<T>(m + 1, mask, val, out.data());
  for (int e = 0; e <= m; ++e)
    for (int i = 0; i <= p; ++i) {
      bsx_close(std::real(out[e * (p + 1) + i]), std::real(c[e][i]), 1e-8, "interpolation returns the Bernstein coefficients");
      bsx_close(std::imag(out[e * (p + 1) + i]), std::imag(c[e][i]), 1e-8, "interpolation returns the Bernstein coefficients");
    }
}
static void interpolation(int pmax, int mmax) {
  int p = bsx_choice("p", 0, pmax), m = bsx_choice("m", 0, mmax);
  if (bsx_choice("cplx", 0, 1)) {
    std::vector<std::vector<std::complex<double>>> c(m + 1);
    for (int e = 0; e <= m; ++e)
      for (int i = 0; i <= p; ++i)
        c[e].push_back(std::complex<double>(bsx_real(ora::nm("re", e, i).c_str(), -1, 1), bsx_real(ora::nm("im", e, i).c_str(), -1, 1)));
    interp<std::complex<double>>(p, m, c);
  } else {
    std::vector<DV> c(m + 1);
    for (int e = 0; e <= m; ++e)
      for (int i = 0; i <= p; ++i) c[e].push_back(bsx_real(ora::nm("c", e, i).c_str(), -1, 1));
    interp<double>(p, m, c);
  }
  bsx_cover("end");
}
//! fn=c03_interp tier=quick bounds="degree 0..6, 1..4 intervals, every piecewise polynomial with coefficients in [-1,1], real and complex"
extern "C" void c03_interp() { interpolation(6, 3); }
//! fn=c03_interp_deep tier=thorough bounds="degree 0..10, 1..5 intervals"
extern "C" void c03_interp_deep() { interpolation(10, 4); }
