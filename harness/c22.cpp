// C22: potentials
#include "ops.h"
#include <complex>
#include <Bembel/Laplace>
#include <Bembel/Helmholtz>
#include <Bembel/Maxwell>
#include <Bembel/Potential>
using namespace Bembel;
typedef std::complex<double> C;
static const double PI = 3.14159265358979323846;
static double dot(const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static C mul(C a, C b) { return C(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
static C sc(double f, C a) { return C(f * a.real(), f * a.imag()); }
static double times(double a, double b) { return a * b; }
static C times(double a, C b) { return sc(a, b); }
static C times(C a, C b) { return mul(a, b); }
static void same(double a, double b, const char *m) { bsx_equal(a, b, m); }
static void same(C a, C b, const char *m) {
  bsx_equal(a.real(), b.real(), m);
  bsx_equal(a.imag(), b.imag(), m);
}
static void sym(double &v, const std::string &n) { v = bsx_real(n.c_str(), -4, 4); }
static void sym(C &v, const std::string &n) {
  double a = bsx_real((n + "re").c_str(), -4, 4), b = bsx_real((n + "im").c_str(), -4, 4);
  v = C(a, b);
}
static Geometry square() {
  Eigen::Vector3d c[4];
  for (int j = 0; j < 4; ++j) c[j] = Eigen::Vector3d(CX[j], CY[j], 0);
  return Geometry(std::vector<Patch>{quad(c)});
}
struct Pt {
  double s[2], w, x[3], u[3], v[3], n[3], k, y[3], d[3], r;  // y: evaluation point
  SurfacePoint sp;
  Eigen::Vector3d ev;
};
static Pt point() {
  Pt p;
  for (int i = 0; i < 2; ++i) p.s[i] = bsx_real(ora::nm("s", i).c_str(), 0, 1);
  p.w = bsx_real("w", 0, 1);
  for (int i = 0; i < 3; ++i) {
    p.x[i] = bsx_real(ora::nm("x", i).c_str(), -8, 8);
    p.u[i] = bsx_real(ora::nm("u", i).c_str(), -8, 8);
    p.v[i] = bsx_real(ora::nm("v", i).c_str(), -8, 8);
    p.y[i] = bsx_real(ora::nm("y", i).c_str(), -8, 8);
    p.d[i] = p.y[i] - p.x[i];
  }
  for (int i = 0; i < 3; ++i) p.n[i] = p.u[(i + 1) % 3] * p.v[(i + 2) % 3] - p.u[(i + 2) % 3] * p.v[(i + 1) % 3];
  double k2 = dot(p.n, p.n), r2 = dot(p.d, p.d);
  bsx_assume(k2 > 1e-6);
  p.k = std::sqrt(k2);
  bsx_assume(r2 > 1e-6);
  p.r = std::sqrt(r2);
  p.sp << p.s[0], p.s[1], p.w, p.x[0], p.x[1], p.x[2], p.u[0], p.u[1], p.u[2], p.v[0], p.v[1], p.v[2];
  p.ev << p.y[0], p.y[1], p.y[2];
  return p;
}
// density on one element of a single patch: local coefficients
template <class Op, class S>
struct Dens {
  int P, M, nb, vd, id;
  AnsatzSpace<Op> as;
  FunctionEvaluator<Op> fe;
  std::vector<S> l;  // local coefficients of the element
  Dens(int P, int M) : P(P), M(M), nb((P + 1) * (P + 1)), as(square(), M, P), fe(as) {
    vd = getFunctionSpaceVectorDimension<LinearOperatorTraits<Op>::Form>();
    Eigen::SparseMatrix<double> T = as.get_transformation_matrix();
    const int N = T.rows() / (nb * vd);
    id = N - 1;
    Eigen::Matrix<S, -1, 1> c = Eigen::Matrix<S, -1, 1>::Zero(T.cols());
    l.assign(nb * vd, S(0));
    // functions living on the element have symbolic coefficients
    std::vector<int> on(T.cols(), 0);
    for (int k = 0; k < T.outerSize(); ++k)
      for (Eigen::SparseMatrix<double>::InnerIterator it(T, k); it; ++it)
        if (it.row() / nb % N == id) on[it.col()] = 1;
    int cnt = 0;
    for (int i = 0; i < T.cols(); ++i)
      if (on[i]) sym(c(i), ora::nm("c", cnt++));
    for (int k = 0; k < T.outerSize(); ++k)
      for (Eigen::SparseMatrix<double>::InnerIterator it(T, k); it; ++it)
        if (it.row() / nb % N == id) l[it.row() / nb / N * nb + it.row() % nb] += times(it.value(), c(it.col()));
    fe.set_function(c);
  }
  const ElementTreeNode &el() const {
    auto it = as.get_superspace().get_mesh().get_element_tree().cpbegin();
    std::advance(it, id);
    bsx_assert(it->id_ == id, "element numbering");
    return *it;
  }
  // value of one component, in the scaled basis (factor 1/h)
  S val(int comp, const double *s) const {
    S v = 0;
    for (int i = 0; i < nb; ++i) v += times((double)(1 << M) * (ora::bern(P, i % (P + 1), s[0]) * ora::bern(P, i / (P + 1), s[1])), l[comp * nb + i]);
    return v;
  }
  // reference derivative with the factor 1/h of the basis: together 1/h^2
  S div(const double *s) const {
    S v = 0;
    for (int i = 0; i < nb; ++i) {
      v += times((double)(1 << (2 * M)) * (ora::dbern(P, i % (P + 1), s[0]) * ora::bern(P, i / (P + 1), s[1])), l[i]);
      v += times((double)(1 << (2 * M)) * (ora::bern(P, i % (P + 1), s[0]) * ora::dbern(P, i / (P + 1), s[1])), l[nb + i]);
    }
    return v;
  }
};
static C wave() {
  double a = bsx_real("kre", -4, 4), b = bsx_real("kim", -2, 2);
  bsx_assume(a * a + b * b > 1e-3);
  return C(a, b);
}
static C green(C k, double r) {
  double m = bsx_exp(k.imag() * r), ph = k.real() * r;
  return C(m * std::cos(ph) / (4 * PI * r), -(m * std::sin(ph) / (4 * PI * r)));
}
// (1+ikr) G / r^2: minus the radial derivative divided by r
static C dgreen(C k, double r) { return sc(1 / (r * r), mul(C(1 - k.imag() * r, k.real() * r), green(k, r))); }

//! fn=c22_laplace tier=quick bounds="all distinct surface and evaluation points, tangents, weights and densities; degree 0..1, level 0..1" cost=30
extern "C" void c22_laplace() {
  Dens<DiscOp, double> D(bsx_choice("P", 0, 1), bsx_choice("M", 0, 1));
  Pt p = point();
  double f = D.val(0, p.s);
  switch (bsx_choice("pot", 0, 2)) {
    case 0: {
      LaplaceSingleLayerPotential<DiscOp> q;
      same(q.evaluateIntegrand_impl(D.fe, D.el(), p.ev, p.sp)(0), f * p.w * p.k / (4 * PI * p.r), "single layer potential");
      break;
    }
    case 1: {
      LaplaceDoubleLayerPotential<DiscOp> q;
      same(q.evaluateIntegrand_impl(D.fe, D.el(), p.ev, p.sp)(0), f * p.w * dot(p.d, p.n) / (4 * PI * p.r * p.r * p.r), "double layer potential");
      break;
    }
    case 2: {
      // gradient of 1/(4 pi r) with respect to the evaluation point
      LaplaceSingleLayerPotentialGradient<DiscOp> q;
      auto g = q.evaluateIntegrand_impl(D.fe, D.el(), p.ev, p.sp);
      for (int i = 0; i < 3; ++i) same(g(i), -(f * p.w * p.k * p.d[i]) / (4 * PI * p.r * p.r * p.r), "gradient of the single layer potential");
      break;
    }
  }
  bsx_cover("end");
}
//! fn=c22_helmholtz tier=quick bounds="all distinct surface and evaluation points, tangents, weights, densities, complex wavenumbers; degree 0..1, level 0..1" cost=30
extern "C" void c22_helmholtz() {
  const int M = bsx_choice("M", 0, 1), P = bsx_choice("P", 0, 1);
  C k = wave();
  Dens<HelmholtzSingleLayerOperator, C> D(P, M);
  Pt p = point();
  C f = D.val(0, p.s);
  if (bsx_choice("pot", 0, 1) == 0) {
    HelmholtzSingleLayerPotential<HelmholtzSingleLayerOperator> q;
    q.set_wavenumber(k);
    same(q.get_wavenumber(), k, "wavenumber");
    same(q.evaluateIntegrand_impl(D.fe, D.el(), p.ev, p.sp)(0), sc(p.w * p.k, mul(f, green(k, p.r))), "single layer potential");
  } else {
    HelmholtzDoubleLayerPotential<HelmholtzSingleLayerOperator> q;
    q.set_wavenumber(k);
    same(q.get_wavenumber(), k, "wavenumber");
    same(q.evaluateIntegrand_impl(D.fe, D.el(), p.ev, p.sp)(0), sc(p.w * dot(p.d, p.n), mul(f, dgreen(k, p.r))), "double layer potential");
  }
  bsx_cover("end");
}
// the operator checked for the Maxwell equations: A + grad div A / k^2
//! fn=c22_maxwell tier=quick bounds="all distinct surface and evaluation points, tangents, weights, densities, complex wavenumbers; degree 1, level 0..1" cost=60
extern "C" void c22_maxwell() {
  const int M = bsx_choice("M", 0, 1);
  C k = wave();
  Dens<MaxwellSingleLayerOperator, C> D(1, M);
  Pt p = point();
  MaxwellSingleLayerPotential<MaxwellSingleLayerOperator> q;
  q.set_wavenumber(k);
  same(q.get_wavenumber(), k, "wavenumber");
  auto e = q.evaluateIntegrand_impl(D.fe, D.el(), p.ev, p.sp);
  C f0 = D.val(0, p.s), f1 = D.val(1, p.s), dv = D.div(p.s), G = green(k, p.r), dG = dgreen(k, p.r), k2 = mul(k, k);
  for (int i = 0; i < 3; ++i) {
    C v = sc(p.w, mul(G, sc(p.u[i], f0) + sc(p.v[i], f1)));
    C g = sc(-p.w * p.d[i], mul(dG, dv));
    // multiplied by k^2
    same(mul(k2, e(i)), mul(k2, v) + g, "Maxwell potential");
  }
  bsx_cover("end");
}
// ---------------------------------------------------------------------------
// the surface integral: kernel polynomial in evaluation and surface point
static double g_k[8];
template <class LinOp>
struct PolyPot;
template <class LinOp>
struct PolyPot3;
namespace Bembel {
template <class LinOp>
struct PotentialTraits<PolyPot<LinOp>> {
  typedef double Scalar;
  static constexpr int OutputSpaceDimension = 1;
};
template <class LinOp>
struct PotentialTraits<PolyPot3<LinOp>> {
  typedef double Scalar;
  static constexpr int OutputSpaceDimension = 3;
};
}  // namespace Bembel
// sum_j k_j y0^a x0^b x1^c
static double ker(const Eigen::Vector3d &y, const Eigen::Vector3d &x) { return g_k[0] + g_k[1] * y(0) + g_k[2] * x(0) + g_k[3] * x(1) * y(1) + g_k[4] * x(0) * x(1) + g_k[5] * x(1) * x(1); }
template <class LinOp>
struct PolyPot : PotentialBase<PolyPot<LinOp>, LinOp> {
  double f = 1;
  Eigen::Matrix<double, 1, 1> evaluateIntegrand_impl(const FunctionEvaluator<LinOp> &fe, const ElementTreeNode &e, const Eigen::Vector3d &y, const SurfacePoint &p) const {
    Eigen::Vector3d x = p.segment<3>(3), u = p.segment<3>(6), v = p.segment<3>(9);
    return fe.evaluate(e, p) * (f * ker(y, x) * u.cross(v).norm() * p(2));
  }
};
template <class LinOp>
struct PolyPot3 : PotentialBase<PolyPot3<LinOp>, LinOp> {
  double f = 1;
  Eigen::Matrix<double, 3, 1> evaluateIntegrand_impl(const FunctionEvaluator<LinOp> &fe, const ElementTreeNode &e, const Eigen::Vector3d &y, const SurfacePoint &p) const {
    Eigen::Vector3d x = p.segment<3>(3);
    return (f * ker(y, x) * p(2)) * fe.evaluate(e, p);
  }
};
static double mono(int d, int p, int k) {
  double r = ora::binom(p, k);
  const int a = d + k, b = p - k;
  double f = 1;
  for (int i = 1; i <= b; ++i) f = f * i / (a + i);
  return r * f / (a + b + 1);
}
static double integ(int d, double x0, double a, int p, int k) {
  double s = 0;
  for (int j = 0; j <= d; ++j) s += ora::binom(d, j) * ora::ipow(x0, d - j) * ora::ipow(a, j) * mono(j, p, k);
  return s;
}
static const double W = 2, H = 1.5;
static Geometry rects(int np) {
  std::vector<Patch> pv;
  for (int p = 0; p < np; ++p) {
    Eigen::Vector3d c[4];
    for (int j = 0; j < 4; ++j) c[j] = Eigen::Vector3d(W * (CX[j] + p), .6 * H * CY[j], .8 * H * CY[j]);
    pv.push_back(quad(c));
  }
  return Geometry(pv);
}
template <class Op, class Pot, int OD>
static void loop(int np, int M, int P, int deg) {
  AnsatzSpace<Op> as(rects(np), M, P);
  DiscretePotential<Pot, Op> dp(as);
  if (deg >= 0) dp.set_degree(deg);
  dp.get_potential().f = 2;
  Eigen::SparseMatrix<double> T = as.get_transformation_matrix();
  const ElementTree &et = as.get_superspace().get_mesh().get_element_tree();
  const int N = et.get_number_of_elements(), nb = (P + 1) * (P + 1);
  // the kernel and the points have many coefficients: one density function
  // at a time, one kernel term at a time
  const int term = bsx_choice("term", 0, 5);
  for (int i = 0; i < 6; ++i) g_k[i] = 0;
  g_k[term] = 1;
  Eigen::VectorXd c(T.cols());
  for (int i = 0; i < c.size(); ++i) c(i) = bsx_real(ora::nm("c", i).c_str(), -1, 1);
  const int npt = bsx_choice("points", 1, 2);
  Eigen::Matrix<double, -1, 3> pts(npt, 3);
  for (int i = 0; i < npt; ++i)
    for (int k = 0; k < 3; ++k) pts(i, k) = bsx_real(ora::nm("y", i, k).c_str(), -1, 1);
  dp.set_cauchy_data(c);
  auto r = dp.evaluate(pts);
  auto r2 = dp.evaluate(pts);
  bsx_assert((r.rows() == npt) & (r.cols() == OD), "one value per point");
  std::vector<double> l(T.rows(), 0.);
  for (int k = 0; k < T.outerSize(); ++k)
    for (Eigen::SparseMatrix<double>::InnerIterator it(T, k); it; ++it) l[it.row()] += it.value() * c(it.col());
  const double h = 1. / (1 << M);
  static const int ex[6][2] = {{0, 0}, {0, 0}, {1, 0}, {0, 1}, {1, 1}, {0, 2}};
  for (int i = 0; i < npt; ++i) {
    double v[3] = {0, 0, 0};
    for (auto e = et.cpbegin(); e != et.cpend(); ++e)
      for (int b = 0; b < nb; ++b) {
        const double I = 2 * h * integ(ex[term][0], W * (e->llc_(0) + e->patch_), W * h, P, b % (P + 1)) * integ(ex[term][1], .6 * H * e->llc_(1), .6 * H * h, P, b / (P + 1));
        if (OD == 1)
          v[0] += I * W * H * l[e->id_ * nb + b];
        else {
          v[0] += I * W * l[e->id_ * nb + b];
          v[1] += I * .6 * H * l[(N + e->id_) * nb + b];
          v[2] += I * .8 * H * l[(N + e->id_) * nb + b];
        }
      }
    for (int q = 0; q < OD; ++q) {
      const double f = term == 1 ? pts(i, 0) : term == 3 ? pts(i, 1) : 1;
      bsx_close(r(i, q), f * v[q], 1e-8, "surface integral");
      bsx_close(r2(i, q), f * v[q], 1e-8, "surface integral again");
    }
  }
}
//! fn=c22_scalar tier=quick bounds="all densities and evaluation points, 6 polynomial kernels, one..two patches, level 0..2, degree 0..2, one or two points" cost=60
extern "C" void c22_scalar() {
  const int M = bsx_choice("M", 0, 2), P = bsx_choice("P", 0, 2);
  if (M == 2 && P == 2) bsx_stop();
  loop<DiscOp, PolyPot<DiscOp>, 1>(bsx_choice("np", 1, 2), M, P, -1);
  bsx_cover("end");
}
//! fn=c22_vector tier=quick bounds="all vector valued densities and evaluation points, 6 polynomial kernels, one..two patches, level 0..1, degree 1..2, one or two points" cost=60
extern "C" void c22_vector() {
  const int M = bsx_choice("M", 0, 1), P = bsx_choice("P", 1, 2);
  loop<DivOp, PolyPot3<DivOp>, 3>(bsx_choice("np", 1, 2), M, P, -1);
  bsx_cover("end");
}
//! fn=c22_degree tier=quick bounds="user defined quadrature degree 2..12 on one patch, continuous space, level 1, degree 1" cost=60
extern "C" void c22_degree() {
  const int d = bsx_choice("deg", 2, 12);
  loop<ContOp, PolyPot<ContOp>, 1>(1, 1, 1, d);
  bsx_cover("end");
}
