// C17: cluster interpolation, moments and transfers
#include "ops.h"
#include <Bembel/H2Matrix>
#include <Bembel/Laplace>
#include <Bembel/LaplaceBeltrami>
#include <Bembel/Maxwell>
#include <Bembel/Helmholtz>
using namespace Bembel;
typedef H2Multipole::ChebychevRoots CR;

static Geometry square() {
  Eigen::Vector3d c[4];
  for (int j = 0; j < 4; ++j) c[j] = Eigen::Vector3d(CX[j], CY[j], 0);
  return Geometry(std::vector<Patch>{quad(c)});
}
// bivariate polynomial with symbolic coefficients in the Chebyshev-like basis
// (2x-1)^a (2y-1)^b, degree < n in both variables
struct Poly {
  int n;
  std::vector<double> c;
  Poly(int n, const char *name) : n(n) {
    for (int i = 0; i < n * n; ++i) c.push_back(bsx_real(ora::nm(name, i).c_str(), -1, 1));
  }
  double operator()(double x, double y) const {
    double v = 0, X = 2 * x - 1, Y = 2 * y - 1;
    for (int b = n - 1; b >= 0; --b) {
      double r = 0;
      for (int a = n - 1; a >= 0; --a) r = r * X + c[b * n + a];
      v = v * Y + r;
    }
    return v;
  }
};
// integral of t^d times the Bernstein polynomial (p,k), or its derivative, over [0,1]
static double mono(int d, int p, int k) {
  // binom(p,k) B(d+k+1, p-k+1)
  double r = ora::binom(p, k);
  const int a = d + k, b = p - k;  // a! b! / (a+b+1)!
  double f = 1;
  for (int i = 1; i <= b; ++i) f = f * i / (a + i);
  return r * f / (a + b + 1);
}
static double dmono(int d, int p, int k) { return p * ((k > 0 ? mono(d, p - 1, k - 1) : 0) - (k < p ? mono(d, p - 1, k) : 0)); }
// integral over the element [lo,lo+h] (in the coordinate of the element) of
// (2x-1)^d times Bernstein (p,k)
static double integ(int d, double lo, double h, int p, int k, bool der) {
  // 2(lo+h t)-1 = A + B t
  const double A = 2 * lo - 1, B = 2 * h;
  double s = 0;
  for (int j = 0; j <= d; ++j) s += ora::binom(d, j) * ora::ipow(A, d - j) * ora::ipow(B, j) * (der ? dmono(j, p, k) : mono(j, p, k));
  return s;
}

//! fn=c17_interp tier=quick bounds="1..9 interpolation points, every polynomial of that order, every point" cost=30
extern "C" void c17_interp() {
  const int n = bsx_choice("n", 1, 9);
  Eigen::VectorXd x = CR(n).points_;
  Eigen::MatrixXd L = H2Multipole::computeLagrangePolynomials<CR>(n);
  bsx_assert(x.size() == n && L.rows() == n && L.cols() == n, "number of points");
  bool ok = true;
  for (int i = 0; i < n; ++i) {
    ok = ok & (x(i) > 0) & (x(i) < 1);
    for (int j = 0; j < i; ++j) ok = ok & (std::abs(x(i) - x(j)) > 1e-3);
  }
  bsx_assert(ok, "distinct interpolation points inside the cluster");
  double t = bsx_real("t", 0, 1);
  std::vector<double> c(n);
  for (int i = 0; i < n; ++i) c[i] = bsx_real(ora::nm("c", i).c_str(), -1, 1);
  // the interpolant of every monomial
  for (int d = 0; d < n; ++d) {
    double v = 0;
    for (int i = 0; i < n; ++i) v += ora::ipow(2 * x(i) - 1, d) * H2Multipole::evaluatePolynomial<CR>(L.col(i), t);
    bsx_close(v, ora::ipow(2 * t - 1, d), 1e-6, "interpolation reproduces polynomials");
  }
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) bsx_close(H2Multipole::evaluatePolynomial<CR>(L.col(i), x(j)), i == j ? 1. : 0., 1e-9, "Lagrange basis");
  Eigen::MatrixXd x2 = H2Multipole::interpolationPoints2D(x);
  ok = x2.rows() == n * n;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) ok = ok & (x2(i * n + j, 0) == x(i)) & (x2(i * n + j, 1) == x(j));
  bsx_assert(ok, "points on the square");
  bsx_cover("end");
}
static void transfer(int n) {
  Eigen::VectorXd x = CR(n).points_;
  Eigen::MatrixXd T = H2Multipole::computeTransferMatrices<CR>(n);
  bsx_assert(T.rows() == n * n && T.cols() == 4 * n * n, "size of the transfer matrices");
  // all polynomials, split by the degree in y
  const int b = bsx_choice("b", 0, n - 1);
  std::vector<double> c(n);
  for (int i = 0; i < n; ++i) c[i] = bsx_real(ora::nm("c", i).c_str(), -1, 1);
  auto p = [&](double X, double Y) {
    double r = 0;
    for (int a = n - 1; a >= 0; --a) r = r * (2 * X - 1) + c[a];
    return r * ora::ipow(2 * Y - 1, b);
  };
  Eigen::VectorXd v(n * n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) v(i * n + j) = p(x(i), x(j));
  // corner of the four sons
  const double sx[] = {0, .5, .5, 0}, sy[] = {0, 0, .5, .5};
  for (int s = 0; s < 4; ++s)
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) {
        double w = 0;
        for (int k = 0; k < n * n; ++k) w += v(k) * T(k, s * n * n + i * n + j);
        bsx_close(w, p(sx[s] + .5 * x(i), sy[s] + .5 * x(j)), 1e-8, "transfer evaluates the interpolant at the points of the son");
      }
  bsx_cover("end");
}
//! fn=c17_transfer tier=quick bounds="1..5 and 9 points per direction, every polynomial of that order" cost=30
extern "C" void c17_transfer() {
  const int n = bsx_choice("n", 1, 6);
  transfer(n == 6 ? 9 : n);
}
// moments of the basis functions of all elements of a cluster
template <class Op>
static void moments(int n, int P, int level, int ref, const std::vector<std::vector<int>> &kind) {
  // kind: per vector component the derivatives of the components (0 none, 1 x, 2 y)
  SuperSpace<Op> sp;
  Geometry g = square();
  sp.init_SuperSpace(g, level + ref, P);
  std::vector<Eigen::MatrixXd> M = H2Multipole::Moment2D<CR, Op>::compute2DMoment(sp, level, ref, n);
  bsx_assert(M.size() == kind.size(), "one moment matrix per vector component");
  const int nb = (P + 1) * (P + 1), ne = 1 << (2 * ref);
  Eigen::VectorXd x = CR(n).points_;
  Poly p(n, "p");
  const double hel = 1. / (1 << (level + ref)), hr = 1. / (1 << ref);
  const ElementTree &et = sp.get_mesh().get_element_tree();
  // elements of the first cluster on the level in their order; the position
  // within the cluster
  for (size_t q = 0; q < kind.size(); ++q) {
    bsx_assert(M[q].rows() == (int)kind[q].size() * n * n && M[q].cols() == nb * ne, "size of the moment matrix");
    for (size_t f = 0; f < kind[q].size(); ++f) {
      int e = 0;
      for (auto it = et.pbegin(); e < ne; ++it, ++e) {
        const double lx = it->llc_(0) * (1 << level), ly = it->llc_(1) * (1 << level);
        for (int b = 0; b < nb; ++b) {
          double m = 0, w = 0;
          for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) m += p(x(i), x(j)) * M[q](f * n * n + i * n + j, e * nb + b);
          for (int bb = 0; bb < n; ++bb)
            for (int a = 0; a < n; ++a)
              w += p.c[bb * n + a] * (integ(a, lx, hr, P, b % (P + 1), kind[q][f] == 1) * integ(bb, ly, hr, P, b / (P + 1), kind[q][f] == 2));
          if (kind[q][f] == 0) w *= hel;
          bsx_close(m, w, 1e-8, "moment equals the integral against the polynomial");
        }
      }
    }
  }
  bsx_cover("end");
}
static void mc(int &n, int &P, int &level, int &ref) {
  n = bsx_choice("n", 1, 4), P = bsx_choice("P", 0, 2), level = bsx_choice("level", 0, 1), ref = bsx_choice("ref", 0, 2);
  if (P + ref > 3 || n + P + ref + level > 6) bsx_stop();
}
//! fn=c17_mom_scalar tier=quick bounds="1..4 points per direction, degree 0..2, clusters of 1..16 elements, every polynomial of that order, every basis function" cost=30
extern "C" void c17_mom_scalar() {
  int n, P, l, r;
  mc(n, P, l, r);
  moments<LaplaceSingleLayerOperator>(n, P, l, r, {{0}});
}
//! fn=c17_mom_hyper tier=quick bounds="1..4 points per direction, degree 1..2, clusters of 1..16 elements, every polynomial of that order, every basis function" cost=30
extern "C" void c17_mom_hyper() {
  int n, P, l, r;
  mc(n, P, l, r);
  if (P < 1) bsx_stop();
  moments<LaplaceHypersingularOperator>(n, P, l, r, {{1, 2}});
}
//! fn=c17_mom_helm tier=quick bounds="1..4 points per direction, degree 1..2, clusters of 1..16 elements, every polynomial of that order, every basis function: Helmholtz hypersingular and single layer operator" cost=30
extern "C" void c17_mom_helm() {
  int n, P, l, r;
  mc(n, P, l, r);
  if (P < 1) bsx_stop();
  if (bsx_choice("op", 0, 1)) moments<HelmholtzHypersingularOperator>(n, P, l, r, {{0, 1, 2}});
  else moments<HelmholtzSingleLayerOperator>(n, P, l, r, {{0}});
}
//! fn=c17_mom_maxwell tier=quick bounds="1..4 points per direction, degree 1..2, clusters of 1..16 elements, every polynomial of that order, every basis function" cost=30
extern "C" void c17_mom_maxwell() {
  int n, P, l, r;
  mc(n, P, l, r);
  if (P < 1) bsx_stop();
  moments<MaxwellSingleLayerOperator>(n, P, l, r, {{0, 1}, {0, 2}});
}
// upward pass: the moments on each level are the directly computed ones;
// downward pass: transpose of the upward pass
//! fn=c17_passes tier=quick bounds="1..3 points per direction, degree 0..1, 1..3 levels, 1..3 moment components, one or two root clusters, every coefficient vector" cost=40
extern "C" void c17_passes() {
  const int n = bsx_choice("n", 1, 3), comp = bsx_choice("comp", 1, 3), steps = bsx_choice("steps", 0, 2), ncl = bsx_choice("roots", 1, 2);
  const int n2 = n * n, rows = n2 * comp;
  if (n + comp + steps > 6 || (ncl > 1 && n > 2)) bsx_stop();
  const int leafs = ncl << (2 * steps), dofs = 2;
  Eigen::MatrixXd T = H2Multipole::computeTransferMatrices<CR>(n);
  // any moment matrix
  Eigen::MatrixXd mom(rows, dofs);
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < dofs; ++j) mom(i, j) = ((i * 7 + j * 5) % 11) * .25 - 1;
  Eigen::MatrixXd c(dofs, leafs);
  for (int i = 0; i < leafs; ++i)
    for (int j = 0; j < dofs; ++j) c(j, i) = bsx_real(ora::nm("c", i, j).c_str(), -1, 1);
  std::vector<Eigen::MatrixXd> up = H2Multipole::forwardTransformation<double>(mom, T, steps, c);
  bsx_assert((int)up.size() == steps + 1, "one moment vector per level");
  // oracle: level by level, cluster by cluster, component by component
  Eigen::MatrixXd cur = mom * c;
  for (int l = 0; l <= steps; ++l) {
    bsx_assert(up[l].rows() == rows && up[l].cols() == cur.cols(), "size of the moments");
    for (int k = 0; k < cur.cols(); ++k)
      for (int i = 0; i < rows; ++i) bsx_close(up[l](i, k), cur(i, k), 1e-8, "moments of the fathers from those of the sons");
    if (l == steps) break;
    Eigen::MatrixXd nx = Eigen::MatrixXd::Zero(rows, cur.cols() / 4);
    for (int k = 0; k < nx.cols(); ++k)
      for (int s = 0; s < 4; ++s)
        for (int f = 0; f < comp; ++f)
          for (int i = 0; i < n2; ++i)
            for (int j = 0; j < n2; ++j) nx(f * n2 + i, k) += T(i, s * n2 + j) * cur(f * n2 + j, 4 * k + s);
    cur = nx;
  }
  // <backward(b), c> = sum <b_l, forward(c)_l>
  std::vector<Eigen::MatrixXd> b(steps + 1);
  double rhs = 0;
  for (int l = 0; l <= steps; ++l) {
    b[l].resize(rows, leafs >> (2 * l));
    for (int i = 0; i < b[l].rows(); ++i)
      for (int k = 0; k < b[l].cols(); ++k) {
        b[l](i, k) = ((l * 3 + i * 5 + k * 2) % 7) * .5 - 1.5;
        rhs += b[l](i, k) * up[l](i, k);
      }
  }
  Eigen::MatrixXd down = H2Multipole::backwardTransformation<double>(mom, T, steps, b);
  bsx_assert(down.size() == dofs * leafs, "size of the result");
  double lhs = 0;
  for (int i = 0; i < leafs; ++i)
    for (int j = 0; j < dofs; ++j) lhs += down(i * dofs + j, 0) * c(j, i);
  bsx_close(lhs, rhs, 1e-6, "downward pass is the transpose of the upward pass");
  bsx_cover("end");
}
