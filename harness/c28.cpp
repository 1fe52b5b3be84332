// C28: discrete boundary integral operators
#include "geo.h"
#include <complex>
#include <Bembel/LinearOperator>
#include <Bembel/AnsatzSpace>
#include <Bembel/H2Matrix>
using namespace Bembel;
struct KDisc;
struct KCont;
struct KDiv;
namespace Bembel {
template <>
struct LinearOperatorTraits<KDisc> {
  typedef Eigen::VectorXd EigenType;
  typedef double Scalar;
  enum { OperatorOrder = -4, Form = DifferentialForm::Discontinuous, NumberOfFMMComponents = 1 };
};
template <>
struct LinearOperatorTraits<KCont> {
  typedef Eigen::VectorXd EigenType;
  typedef double Scalar;
  enum { OperatorOrder = -4, Form = DifferentialForm::Continuous, NumberOfFMMComponents = 1 };
};
template <>
struct LinearOperatorTraits<KDiv> {
  typedef Eigen::VectorXd EigenType;
  typedef double Scalar;
  enum { OperatorOrder = -4, Form = DifferentialForm::DivConforming, NumberOfFMMComponents = 1 };
};
}  // namespace Bembel
// kernel sum_t k_t x0^a x1^b y0^c y1^d, not symmetric
static const int NT = 6, EX[NT][4] = {{0, 0, 0, 0}, {1, 0, 0, 0}, {0, 0, 1, 0}, {1, 0, 0, 1}, {0, 1, 1, 0}, {0, 2, 1, 0}};
struct Ker {
  double k[NT];
  double operator()(const double *x, const double *y) const {
    double r = 0;
    for (int t = 0; t < NT; ++t) r += k[t] * (ora::ipow(x[0], EX[t][0]) * ora::ipow(x[1], EX[t][1]) * ora::ipow(y[0], EX[t][2]) * ora::ipow(y[1], EX[t][3]));
    return r;
  }
};
template <class Op>
struct KBase : LinearOperatorBase<Op> {
  Ker K;
  double ker(const SurfacePoint &p, const SurfacePoint &q) const {
    const double x[2] = {p(3), p(4)}, y[2] = {q(3), q(4)};
    return K(x, y);
  }
  double kap(const SurfacePoint &p) const {
    Eigen::Vector3d u = p.segment<3>(6), v = p.segment<3>(9);
    return u.cross(v).norm();
  }
  template <class T>
  void evaluateIntegrand_impl(const T &ss, const SurfacePoint &p, const SurfacePoint &q, Eigen::MatrixXd *I) const {
    ss.addScaledBasisInteraction(I, ker(p, q) * (kap(p) * kap(q) * p(2) * q(2)), p.segment<2>(0), q.segment<2>(0));
  }
  Eigen::Matrix<double, 1, 1> evaluateFMMInterpolation_impl(const SurfacePoint &p, const SurfacePoint &q) const {
    Eigen::Matrix<double, 1, 1> r;
    r(0) = ker(p, q) * (kap(p) * kap(q));
    return r;
  }
};
struct KDisc : KBase<KDisc> {};
struct KCont : KBase<KCont> {};
struct KDiv : KBase<KDiv> {
  template <class T>
  void evaluateIntegrand_impl(const T &ss, const SurfacePoint &p, const SurfacePoint &q, Eigen::MatrixXd *I) const {
    ss.addScaledVectorBasisInteraction(I, ker(p, q) * (p(2) * q(2)), p.segment<2>(0), q.segment<2>(0), p.segment<3>(6), p.segment<3>(9), q.segment<3>(6), q.segment<3>(9));
  }
  Eigen::Matrix<double, 2, 2> evaluateFMMInterpolation_impl(const SurfacePoint &p, const SurfacePoint &q) const {
    Eigen::Matrix<double, 2, 2> r;
    for (int i = 0; i < 2; ++i)
      for (int j = 0; j < 2; ++j) r(i, j) = ker(p, q) * p.segment<3>(6 + 3 * i).dot(q.segment<3>(6 + 3 * j));
    return r;
  }
};
static double mono(int d, int p, int k) {
  double r = ora::binom(p, k);
  const int a = d + k, b = p - k;
  double f = 1;
  for (int i = 1; i <= b; ++i) f = f * i / (a + i);
  return r * f / (a + b + 1);
}
static double integ(int d, double x0, double a, int p, int k) {
  double s = 0;
  for (int j = 0; j <= d; ++j) s += ora::binom(d, j) * ora::ipow(x0, d - j) * ora::ipow(a, j) * mono(j, p, k);
  return s;
}
// rectangles in the planes y:z = 3:4; shape 0: one, 1: two sharing an edge,
// 2: two touching in a corner, 3: two apart
static const double W = 2, H = 1.5;
struct Geo {
  int np;
  double x0[2], y0[2];  // in units of W, H
  Geometry g;
  explicit Geo(int shape) : np(shape == 0 ? 1 : 2) {
    x0[0] = y0[0] = 0;
    x0[1] = shape == 3 ? 4 : 1;
    y0[1] = shape == 2 ? 1 : shape == 3 ? .5 : 0;
    std::vector<Patch> pv;
    for (int p = 0; p < np; ++p) {
      Eigen::Vector3d c[4];
      for (int j = 0; j < 4; ++j) c[j] = Eigen::Vector3d(W * (CX[j] + x0[p]), .6 * H * (CY[j] + y0[p]), .8 * H * (CY[j] + y0[p]));
      pv.push_back(quad(c));
    }
    g = Geometry(pv);
  }
  // one dimensional integrals without the measure
  double ix(const ElementTreeNode &e, int d, int P, int i) const {
    const double h = e.get_h();
    return integ(d, W * (e.llc_(0) + x0[e.patch_]), W * h, P, i % (P + 1));
  }
  double iy(const ElementTreeNode &e, int d, int P, int i) const {
    const double h = e.get_h();
    return integ(d, .6 * H * (e.llc_(1) + y0[e.patch_]), .6 * H * h, P, i / (P + 1));
  }
};
// right-hand sides V -> A V for the exact matrix of kernel term t; local test
// and trial functions; tangents u = (W,0,0), v = (0,.6H,.8H)
template <class Op>
struct Exact {
  const AnsatzSpace<Op> &as;
  int P, nb, N, vd;
  Eigen::SparseMatrix<double> T;
  std::vector<std::vector<double>> X[2];  // moments X[side][t][local]
  Exact(const AnsatzSpace<Op> &as, const Geo &G) : as(as), P(as.get_polynomial_degree()), nb((P + 1) * (P + 1)) {
    vd = getFunctionSpaceVectorDimension<LinearOperatorTraits<Op>::Form>();
    T = as.get_transformation_matrix();
    const ElementTree &et = as.get_superspace().get_mesh().get_element_tree();
    N = et.get_number_of_elements();
    bsx_assert(T.rows() == vd * N * nb, "number of local functions");
    for (int sd = 0; sd < 2; ++sd)
      for (int t = 0; t < NT; ++t) {
        std::vector<double> m(N * nb);
        for (auto e = et.cpbegin(); e != et.cpend(); ++e)
          for (int i = 0; i < nb; ++i) m[e->id_ * nb + i] = e->get_h() * G.ix(*e, EX[t][2 * sd], P, i) * G.iy(*e, EX[t][2 * sd + 1], P, i);
        X[sd].push_back(m);
      }
  }
  // moment of the test/trial function with number col and component (vd=2: dot product of tangents)
  // returns the moments for component c: int phi^c L
  void mom(int sd, int t, std::vector<double> *r) const {
    for (int c = 0; c < vd; ++c) r[c].assign(T.cols(), 0.);
    for (int k = 0; k < T.outerSize(); ++k)
      for (Eigen::SparseMatrix<double>::InnerIterator it(T, k); it; ++it) r[it.row() / (N * nb)][it.col()] += it.value() * X[sd][t][it.row() % (N * nb)];
  }
  // A(i,j) for a kernel
  std::vector<double> matrix(const double *k) const {
    const int n = T.cols();
    std::vector<double> A(n * n, 0.);
    for (int t = 0; t < NT; ++t) {
      std::vector<double> a[2], b[2];
      mom(0, t, a);
      mom(1, t, b);
      const double g[2] = {vd == 1 ? W * H * W * H : W * W, H * H};  // u.v = 0
      for (int c = 0; c < vd; ++c)
        for (int i = 0; i < n; ++i)
          for (int j = 0; j < n; ++j) A[i * n + j] += (g[c] * a[c][i] * b[c][j]) * k[t];
    }
    return A;
  }
};
// coefficients of a kernel without symmetry
static const double K0[NT] = {.75, -1, .5, 1.25, -.625, .375};
// window >= 0: three symbolic kernel coefficients, every matrix entry;
// otherwise a fixed kernel and the product with every vector
template <class Op>
static void dense(int shape, int M, int P, int window) {
  Geo G(shape);
  AnsatzSpace<Op> as(G.g, M, P);
  DiscreteOperator<Eigen::MatrixXd, Op> d(as);
  double *k = d.get_linear_operator().K.k;
  for (int t = 0; t < NT; ++t) k[t] = window >= 0 ? (t / 3 == window ? bsx_real(ora::nm("k", t).c_str(), -1, 1) : 0) : K0[t];
  d.compute();
  const Eigen::MatrixXd &A = d.get_discrete_operator();
  Exact<Op> E(as, G);
  const int n = E.T.cols();
  bsx_assert((A.rows() == n) & (A.cols() == n), "one row and column per degree of freedom");
  std::vector<double> B = E.matrix(k);
  if (window >= 0) {
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) bsx_close(A(i, j), B[i * n + j], 1e-8, "matrix entry");
    return;
  }
  std::vector<double> u(n);
  for (int i = 0; i < n; ++i) u[i] = bsx_real(ora::nm("u", i).c_str(), -1, 1);
  for (int i = 0; i < n; ++i) {
    double a = 0, b = 0;
    for (int j = 0; j < n; ++j) a += A(i, j) * u[j], b += B[i * n + j] * u[j];
    bsx_close(a, b, 1e-8, "matrix times vector");
  }
}
template <class Op>
static void h2(int shape, int M, int P) {
  Geo G(shape);
  AnsatzSpace<Op> as(G.g, M, P);
  DiscreteOperator<Eigen::H2Matrix<double>, Op> d(as);
  double *k = d.get_linear_operator().K.k;
  for (int t = 0; t < NT; ++t) k[t] = K0[t];
  d.compute();
  const Eigen::H2Matrix<double> &A = d.get_discrete_operator();
  Exact<Op> E(as, G);
  const int n = E.T.cols();
  bsx_assert((A.rows() == n) & (A.cols() == n), "one row and column per degree of freedom");
  std::vector<double> B = E.matrix(k);
  Eigen::VectorXd u(n);
  for (int i = 0; i < n; ++i) u(i) = bsx_real(ora::nm("u", i).c_str(), -1, 1);
  Eigen::VectorXd a = A * u;
  for (int i = 0; i < n; ++i) {
    double b = 0;
    for (int j = 0; j < n; ++j) b += B[i * n + j] * u[j];
    bsx_close(a(i), b, 1e-7, "compressed matrix times vector");
  }
}
//! fn=c28_disc tier=quick bounds="all kernels of two 3 parameter families; one patch or two patches (sharing an edge, a corner, apart), level 0, degree 0..1, discontinuous" cost=100
extern "C" void c28_disc() {
  const int P = bsx_choice("P", 0, 1), s = bsx_choice("shape", 0, 3);
  dense<KDisc>(s, 0, P, bsx_choice("window", 0, 1));
  bsx_cover("end");
}
//! fn=c28_cont tier=quick bounds="all kernels of two 3 parameter families; one patch or two patches (sharing an edge, a corner, apart), level 0, degree 1, continuous" cost=100
extern "C" void c28_cont() {
  const int s = bsx_choice("shape", 0, 3);
  dense<KCont>(s, 0, 1, bsx_choice("window", 0, 1));
  bsx_cover("end");
}
//! fn=c28_div tier=quick bounds="all kernels of two 3 parameter families; one patch or two patches (sharing an edge, a corner), level 0, degree 1, div-conforming" cost=100
extern "C" void c28_div() {
  const int s = bsx_choice("shape", 0, 2);
  dense<KDiv>(s, 0, 1, bsx_choice("window", 0, 1));
  bsx_cover("end");
}
//! fn=c28_vec tier=quick bounds="all coefficient vectors, one kernel without symmetry, three space types; one patch or two patches (sharing an edge, a corner, apart), level 1, degree 0 or 1" cost=100
extern "C" void c28_vec() {
  const int sp = bsx_choice("space", 0, 2), s = bsx_choice("shape", 0, 3);
  if (sp > 0 && s > 1) bsx_stop();
  if (sp == 0) dense<KDisc>(s, 1, 0, -1);
  if (sp == 1) dense<KCont>(s, 1, 1, -1);
  if (sp == 2) dense<KDiv>(s, 1, 1, -1);
  bsx_cover("end");
}
//! fn=c28_h2 tier=quick bounds="all coefficient vectors, one kernel without symmetry, three space types, compressed matrix with uncompressed blocks only; one patch or two patches (sharing an edge, apart), level 0..1, degree 0 or 1" cost=100
extern "C" void c28_h2() {
  const int sp = bsx_choice("space", 0, 2), s = bsx_choice("shape", 0, 3), M = bsx_choice("M", 0, 1);
  if (s == 2 || (sp > 0 && M > 0 && s > 0)) bsx_stop();
  if (sp == 0) h2<KDisc>(s, M, 0);
  if (sp == 1) h2<KCont>(s, M, 1);
  if (sp == 2) h2<KDiv>(s, M, 1);
  bsx_cover("end");
}
//! fn=c28_deep tier=thorough bounds="all coefficient vectors, dense and compressed matrices, four geometries, level 0..2, degree 0..2, three space types" cost=900 time=850
extern "C" void c28_deep() {
  const int sp = bsx_choice("space", 0, 2), s = bsx_choice("shape", 0, 3), M = bsx_choice("M", 0, 2), P = bsx_choice("P", 0, 2), c = bsx_choice("compressed", 0, 1);
  if ((sp > 0 && P == 0) || M + P > 2 || (M == 2 && (s == 1 || s == 2)) || (M == 1 && P == 1 && s > 1)) bsx_stop();
  if (!c) {
    if (sp == 0) dense<KDisc>(s, M, P, -1);
    if (sp == 1) dense<KCont>(s, M, P, -1);
    if (sp == 2) dense<KDiv>(s, M, P, -1);
  } else {
    if (sp == 0) h2<KDisc>(s, M, P);
    if (sp == 1) h2<KCont>(s, M, P);
    if (sp == 2) h2<KDiv>(s, M, P);
  }
  bsx_cover("end");
}
