// C25: orders of the quadrature for pairs of elements
#include "geo.h"
#include <cmath>
#include <Bembel/AnsatzSpace>
#include <Bembel/LinearOperator>
#include <Bembel/Laplace>
#include <Bembel/Helmholtz>
#include <Bembel/Maxwell>
using namespace Bembel;

// stands for the tables: records the requested order
struct Table {
  mutable std::vector<int> asked;
  Cubature operator[](int i) const {
    asked.push_back(i);
    Cubature Q;
    Q.xi_ = Eigen::MatrixXd::Constant(2, 1, .5);
    Q.w_ = Eigen::VectorXd::Ones(1);
    return Q;
  }
};
struct Space {
  int P;
  mutable int mapped;
  void map2surface(const ElementTreeNode &, const Eigen::Vector2d &xi, double w, SurfacePoint *p) const {
    p->setZero();
    (*p)(0) = xi(0);
    (*p)(1) = xi(1);
    (*p)(2) = w;
    ++mapped;
  }
  int get_polynomial_degree() const { return P; }
};
template <int O>
struct Op;
namespace Bembel {
template <int O>
struct LinearOperatorTraits<Op<O> > {
  typedef Eigen::VectorXd EigenType;
  typedef double Scalar;
  enum { OperatorOrder = O, Form = DifferentialForm::Discontinuous, NumberOfFMMComponents = 1 };
};
}  // namespace Bembel
template <int O>
struct Op : LinearOperatorBase<Op<O> > {
  mutable int calls = 0;
  template <class T>
  void evaluateIntegrand_impl(const T &, const SurfacePoint &, const SurfacePoint &, Eigen::MatrixXd *m) const {
    ++calls;
    (*m)(0, 0) += 1;
  }
};
static const double L2 = std::log(2.);
// twice the numerator and the denominator of the estimate for separated elements
struct Est {
  double num, den;
};
// t is the logarithm of the distance, or of the mesh size if that is larger
static Est estimate(int O, int P, int L, double t) {
  Est e;
  double alpha = 2 - O + 2 * P;
  e.num = .5 * ((alpha + P) * L * L2 - (2 - P + O) * t);
  e.den = (L + 2) * L2 + t;
  return e;
}
// n is the larger one of the far field order and the integer part of the estimate
static void verify(int n, int O, int P, int L, double t) {
  int ff = P - O + 1;
  Est e = estimate(O, P, L, t);
  bsx_assert(n >= ff, "order not below the order of the far field");
  bsx_assert(n < Constants::maximum_quadrature_degree, "order within the tables");
  double tol = 1e-9 * (1 + std::abs((double)n));
  bsx_assert((n == ff) | (e.num >= (n - tol) * e.den), "order is not larger than the estimate requires");
  bsx_assert(e.num < (n + 1 + tol) * e.den, "order is not smaller than the estimate requires");
}
struct Pairing {
  ElementTreeNode e1, e2;
};
static void place(Pairing *p, int L, double gap) {
  bsx_fork_abs(1);
  p->e1.level_ = p->e2.level_ = L;
  p->e1.midpoint_ = Eigen::Vector3d(0, 0, 0);
  p->e1.radius_ = bsx_real("r1", 0, 1);
  p->e2.radius_ = bsx_real("r2", 0, 1);
  p->e2.midpoint_ = Eigen::Vector3d(0, 0, p->e1.radius_ + p->e2.radius_ + gap);
  for (int i = 0; i < 4; ++i) {
    p->e1.vertices_.push_back(i);
    p->e2.vertices_.push_back(10 + i);
  }
}
template <int O>
static int order(const Pairing &p, int P, bool far) {
  Op<O> op;
  Space sp;
  Table tab;
  sp.P = P;
  sp.mapped = 0;
  ElementSurfacePoints f1(2), f2(2);
  Eigen::MatrixXd m = Eigen::MatrixXd::Zero(1, 1);
  DuffyTrick::evaluateBilinearForm(op, sp, p.e1, p.e2, tab, f1, f2, &m);
  bsx_assert(tab.asked.size() == 1, "one rule is used");
  if (tab.asked.empty()) return 0;
  // precomputed points have been passed for the order of the far field
  if (far) {
    bsx_assert((tab.asked[0] == P - O + 1) ? (sp.mapped == 0 && op.calls >= 1) : (sp.mapped > 0), "precomputed points are used exactly if they are of the required order");
  }
  return tab.asked[0];
}
static int levels(int P, int maxL) {
  int l = 99 / (P + 2);
  return l < maxL ? l : maxL;
}
// separated elements, all distances
template <int O>
static void separated(int minP, int maxP, int maxL) {
  int P = bsx_choice("degree", minP, maxP);
  int L = bsx_choice("level", 0, maxL);
  if (L > levels(P, maxL)) return bsx_stop();
  double h = 1. / (1 << L);
  Pairing p;
  if (bsx_choice("far", 0, 1)) {
    double t = bsx_real("log_dist", -L * L2, 7);
    double d = bsx_exp(t);
    bsx_assume(d >= h);
    place(&p, L, d);
    verify(order<O>(p, P, true), O, P, L, t);
  } else {
    double d = bsx_real("dist", 0, h);
    bsx_assume(d < h);
    place(&p, L, d);
    verify(order<O>(p, P, true), O, P, L, -L * L2);
  }
  bsx_cover("end");
}
//! fn=c25_single tier=quick bounds="operator order -1, degree 0..8, level 0..6 with level*(degree+2)<100, all distances up to 1000 and radii up to 1" cost=60
extern "C" void c25_single() { separated<-1>(0, 8, 6); }
//! fn=c25_double tier=quick bounds="operator order 0, degree 0..8, level 0..6 with level*(degree+2)<100, all distances up to 1000 and radii up to 1" cost=60
extern "C" void c25_double() { separated<0>(0, 8, 6); }
//! fn=c25_hyper tier=quick bounds="operator order 1, degree 0..8, level 0..6 with level*(degree+2)<100, all distances up to 1000 and radii up to 1" cost=60
extern "C" void c25_hyper() { separated<1>(0, 8, 6); }
//! fn=c25_single_deep tier=thorough bounds="operator order -1, degree 0..19, level 0..24 with level*(degree+2)<100, all distances up to 1000 and radii up to 1" cost=300 time=800
extern "C" void c25_single_deep() { separated<-1>(0, 19, 24); }
//! fn=c25_hyper_deep tier=thorough bounds="operator order 1, degree 0..19, level 0..24 with level*(degree+2)<100, all distances up to 1000 and radii up to 1" cost=300 time=800
extern "C" void c25_hyper_deep() { separated<1>(0, 19, 24); }

// orders do not grow with the distance and not shrink with the degree
template <int O>
static void monotone(int maxP, int maxL, double far) {
  int P = bsx_choice("degree", 0, maxP), L = bsx_choice("level", 0, maxL);
  if (L > levels(P + 1, maxL)) return bsx_stop();
  double h = 1. / (1 << L);
  double t = bsx_real("log_dist", -L * L2, far);
  double d = bsx_exp(t), d2 = bsx_real("closer", 0, h);
  bsx_assume(d >= h);
  bsx_assume(d2 < h);
  Pairing p, q;
  place(&p, L, d);
  int n = order<O>(p, P, false);
  if (bsx_choice("what", 0, 1) == 0) {
    place(&q, L, d2);
    bsx_assert(order<O>(q, P, false) >= n, "order does not grow with the distance");
  } else if (bsx_choice("which", 0, 1)) {
    double s = bsx_real("log_dist2", -L * L2, far), e = bsx_exp(s);
    bsx_assume(e >= h);
    bsx_assume(s <= t);
    place(&q, L, e);
    bsx_assert(order<O>(q, P, false) >= n, "order does not grow with the distance");
  } else {
    bsx_assert(order<O>(p, P + 1, false) >= n, "order does not shrink with the degree");
  }
  bsx_cover("end");
}
//! fn=c25_monotone tier=quick bounds="operator order -1, degree 0..5, level 0..4, all pairs of distances up to 1000" cost=30
extern "C" void c25_monotone() { monotone<-1>(5, 4, 7); }
//! fn=c25_monotone1 tier=thorough bounds="operator order 1, degree 0..9, level 0..8, all pairs of distances up to 1000" cost=80 time=800
extern "C" void c25_monotone1() { monotone<1>(9, 8, 7); }

// pairs with common points: the distance of the balls is zero
//! fn=c25_touching tier=quick bounds="identical elements, common edge, common vertex; degree 0..8, level 0..6 with level*(degree+2)<100, order -1" cost=20
extern "C" void c25_touching() {
  int P = bsx_choice("degree", 0, 8), L = bsx_choice("level", 0, 6);
  if (L > levels(P, 6)) return bsx_stop();
  Pairing p;
  place(&p, L, 0);
  double x = bsx_real("overlap", 0, 1);
  p.e2.midpoint_(2) *= x;
  int k = bsx_choice("kind", 0, 2);
  if (k) p.e2.vertices_[2] = 1;
  if (k == 2) p.e2.vertices_[3] = 0;
  Op<-1> op;
  Space sp;
  Table tab;
  sp.P = P;
  sp.mapped = 0;
  ElementSurfacePoints f1(2), f2(2);
  Eigen::MatrixXd m = Eigen::MatrixXd::Zero(1, 1);
  DuffyTrick::evaluateBilinearForm(op, sp, p.e1, k ? p.e2 : p.e1, tab, f1, f2, &m);
  bsx_assert(tab.asked.size() == 1, "one rule is used");
  verify(tab.asked[0], -1, P, L, -L * L2);
  bsx_assert(sp.mapped > 0, "regularised rule is used");
  bsx_cover("end");
}
// outside the range of the tables nothing is evaluated
//! fn=c25_outside tier=quick bounds="touching elements with level*(degree+2)>100, operator order -1" vacuous=ok cost=5
extern "C" void c25_outside() {
  int P = bsx_choice("degree", 3, 19), L = bsx_choice("level", 4, 20);
  if (L * (P + 2) <= 100) return bsx_stop();
  Pairing p;
  place(&p, L, 0);
  bsx_expect_abort(1);
  bsx_cover("end");
  order<-1>(p, P, true);
  bsx_expect_abort(0);
  bsx_assert(false, "a rule outside of the tables has been used");
}
// operators of the library declare the orders their kernels have
//! fn=c25_traits tier=quick bounds="all boundary operators of the library" nopaths=1 cost=2
extern "C" void c25_traits() {
  bsx_assert(LaplaceSingleLayerOperator().get_FarfieldQuadratureDegree(3) == 5, "order of the far field, Laplace single layer");
  bsx_assert(LaplaceDoubleLayerOperator().get_FarfieldQuadratureDegree(3) == 4, "order of the far field, Laplace double layer");
  bsx_assert(LaplaceAdjointDoubleLayerOperator().get_FarfieldQuadratureDegree(3) == 4, "order of the far field, Laplace adjoint double layer");
  bsx_assert(LaplaceHypersingularOperator().get_FarfieldQuadratureDegree(3) == 3, "order of the far field, Laplace hypersingular");
  bsx_assert(HelmholtzSingleLayerOperator().get_FarfieldQuadratureDegree(3) == 5, "order of the far field, Helmholtz single layer");
  bsx_assert(MaxwellSingleLayerOperator().get_FarfieldQuadratureDegree(3) == 5, "order of the far field, Maxwell single layer");
  bsx_cover("end");
}
