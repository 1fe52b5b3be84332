// C19: integrands of the boundary integral operators
#include "ops.h"
#include <complex>
#include <Bembel/Laplace>
#include <Bembel/Helmholtz>
#include <Bembel/Maxwell>
using namespace Bembel;
typedef std::complex<double> C;

// a point with position, tangents, parameters and weight
struct Pt {
  double s[2], w, x[3], u[3], v[3], n[3], k2, k;
  SurfacePoint sp;
};
static double R(const char *a, const char *b, int i, double lo, double hi) { return bsx_real(ora::nm((std::string(a) + b).c_str(), i).c_str(), lo, hi); }
static Pt point(const char *nm) {
  Pt p;
  for (int i = 0; i < 2; ++i) p.s[i] = R(nm, "s", i, 0, 1);
  p.w = R(nm, "w", 0, 0, 1);
  for (int i = 0; i < 3; ++i) {
    p.x[i] = R(nm, "x", i, -8, 8);
    p.u[i] = R(nm, "u", i, -8, 8);
    p.v[i] = R(nm, "v", i, -8, 8);
  }
  for (int i = 0; i < 3; ++i) p.n[i] = p.u[(i + 1) % 3] * p.v[(i + 2) % 3] - p.u[(i + 2) % 3] * p.v[(i + 1) % 3];
  p.k2 = p.n[0] * p.n[0] + p.n[1] * p.n[1] + p.n[2] * p.n[2];
  bsx_assume(p.k2 > 1e-6);
  p.k = std::sqrt(p.k2);
  p.sp << p.s[0], p.s[1], p.w, p.x[0], p.x[1], p.x[2], p.u[0], p.u[1], p.u[2], p.v[0], p.v[1], p.v[2];
  return p;
}
static double dot(const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static double dist(const Pt &a, const Pt &b, double *d) {
  for (int i = 0; i < 3; ++i) d[i] = a.x[i] - b.x[i];
  double r2 = dot(d, d);
  bsx_assume(r2 > 1e-6);
  return std::sqrt(r2);
}
// local basis and its derivatives in the reference element
static double bas(int P, int i, const double *s) { return ora::bern(P, i % (P + 1), s[0]) * ora::bern(P, i / (P + 1), s[1]); }
static double basu(int P, int i, const double *s) { return ora::dbern(P, i % (P + 1), s[0]) * ora::bern(P, i / (P + 1), s[1]); }
static double basv(int P, int i, const double *s) { return ora::bern(P, i % (P + 1), s[0]) * ora::dbern(P, i / (P + 1), s[1]); }
static void same(double a, double b, const char *m) { bsx_equal(a, b, m); }
static void same(C a, C b, const char *m) {
  bsx_equal(a.real(), b.real(), m);
  bsx_equal(a.imag(), b.imag(), m);
}
static Geometry square() {
  Eigen::Vector3d c[4];
  for (int j = 0; j < 4; ++j) c[j] = Eigen::Vector3d(CX[j], CY[j], 0);
  return Geometry(std::vector<Patch>{quad(c)});
}
static const double PI = 3.14159265358979323846;

template <class Op, class S>
struct Ctx {
  SuperSpace<Op> ss;
  int P, M, nb, vd;
  Ctx(int P, int M) : P(P), M(M), nb((P + 1) * (P + 1)), vd(getFunctionSpaceVectorDimension<LinearOperatorTraits<Op>::Form>()) {
    Geometry g = square();
    ss.init_SuperSpace(g, M, P);
  }
  Eigen::Matrix<S, -1, -1> eval(const Op &op, const Pt &a, const Pt &b) const {
    Eigen::Matrix<S, -1, -1> I(vd * nb, vd * nb);
    I.setZero();
    op.evaluateIntegrand(ss, a.sp, b.sp, &I);
    return I;
  }
};
// scalar valued operators: kernel k(x,y), already containing both surface measures
template <class Op, class S, class K>
static void scalar(Op op, int P, K ker) {
  Ctx<Op, S> c(P, 0);
  Pt a = point("a"), b = point("b");
  double d[3], r = dist(a, b, d);
  S k = ker(a, b, d, r);
  same(op.evaluateFMMInterpolation(a.sp, b.sp)(0, 0), k, "compressed kernel");
  Eigen::Matrix<S, -1, -1> I = c.eval(op, a, b);
  bsx_assert(I.rows() == c.nb && I.cols() == c.nb, "size of the integrand");
  for (int i = 0; i < c.nb; ++i)
    for (int j = 0; j < c.nb; ++j) same(I(i, j), k * (a.w * b.w * bas(P, i, a.s) * bas(P, j, b.s)), "integrand is kernel times test and trial function");
}
//! fn=c19_lap_sl tier=quick bounds="all distinct points, tangents, weights; degree 0..1" cost=20
extern "C" void c19_lap_sl() {
  scalar<LaplaceSingleLayerOperator, double>(LaplaceSingleLayerOperator(), bsx_choice("P", 0, 1), [](const Pt &a, const Pt &b, const double *, double r) { return a.k * b.k / (4 * PI * r); });
  bsx_cover("end");
}
//! fn=c19_lap_dl tier=quick bounds="all distinct points, tangents, weights; degree 0..1" cost=20
extern "C" void c19_lap_dl() {
  scalar<LaplaceDoubleLayerOperator, double>(LaplaceDoubleLayerOperator(), bsx_choice("P", 0, 1), [](const Pt &a, const Pt &b, const double *d, double r) { return a.k * dot(d, b.n) / (4 * PI * r * r * r); });
  bsx_cover("end");
}
//! fn=c19_lap_adl tier=quick bounds="all distinct points, tangents, weights; degree 0..1" cost=20
extern "C" void c19_lap_adl() {
  scalar<LaplaceAdjointDoubleLayerOperator, double>(LaplaceAdjointDoubleLayerOperator(), bsx_choice("P", 0, 1), [](const Pt &a, const Pt &b, const double *d, double r) { return -b.k * dot(d, a.n) / (4 * PI * r * r * r); });
  bsx_cover("end");
}
// Helmholtz kernel exp(-ikr)/(4 pi r)
static C wave() {
  double a = bsx_real("kre", -4, 4), b = bsx_real("kim", -2, 2);
  bsx_assume(a * a + b * b > 1e-3);
  return C(a, b);
}
static C green(C k, double r) {
  // -i(a+ib)r = br - iar
  double m = bsx_exp(k.imag() * r), ph = k.real() * r;
  return C(m * std::cos(ph) / (4 * PI * r), -(m * std::sin(ph) / (4 * PI * r)));
}
static C mul(C a, C b) { return C(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
static C sc(double f, C a) { return C(f * a.real(), f * a.imag()); }
// (1+ikr) G / r^2
static C dgreen(C k, double r) { return sc(1 / (r * r), mul(C(1 - k.imag() * r, k.real() * r), green(k, r))); }
template <class Op, class K>
static void helm(int P, K ker) {
  Op op;
  C k = wave();
  op.set_wavenumber(k);
  C kk = op.get_wavenumber();
  bsx_equal(kk.real(), k.real(), "wavenumber");
  bsx_equal(kk.imag(), k.imag(), "wavenumber");
  Ctx<Op, C> c(P, 0);
  Pt a = point("a"), b = point("b");
  double d[3], r = dist(a, b, d);
  C g = ker(a, b, d, r, k);
  same(op.evaluateFMMInterpolation(a.sp, b.sp)(0, 0), g, "compressed kernel");
  Eigen::Matrix<C, -1, -1> I = c.eval(op, a, b);
  bsx_assert(I.rows() == c.nb && I.cols() == c.nb, "size of the integrand");
  for (int i = 0; i < c.nb; ++i)
    for (int j = 0; j < c.nb; ++j) same(I(i, j), sc(a.w * b.w * bas(P, i, a.s) * bas(P, j, b.s), g), "integrand is kernel times test and trial function");
}
//! fn=c19_helm_sl tier=quick bounds="all distinct points, tangents, weights, complex wavenumbers; degree 0..1" cost=20
extern "C" void c19_helm_sl() {
  helm<HelmholtzSingleLayerOperator>(bsx_choice("P", 0, 1), [](const Pt &a, const Pt &b, const double *, double r, C k) { return sc(a.k * b.k, green(k, r)); });
  bsx_cover("end");
}
//! fn=c19_helm_dl tier=quick bounds="all distinct points, tangents, weights, complex wavenumbers; degree 0..1" cost=20
extern "C" void c19_helm_dl() {
  helm<HelmholtzDoubleLayerOperator>(bsx_choice("P", 0, 1), [](const Pt &a, const Pt &b, const double *d, double r, C k) { return sc(a.k * dot(d, b.n), dgreen(k, r)); });
  bsx_cover("end");
}
//! fn=c19_helm_adl tier=quick bounds="all distinct points, tangents, weights, complex wavenumbers; degree 0..1" cost=20
extern "C" void c19_helm_adl() {
  helm<HelmholtzAdjointDoubleLayerOperator>(bsx_choice("P", 0, 1), [](const Pt &a, const Pt &b, const double *d, double r, C k) { return sc(-b.k * dot(d, a.n), dgreen(k, r)); });
  bsx_cover("end");
}
// Laplace hypersingular operator: G curl u . curl v
//! fn=c19_lap_hyp tier=quick bounds="all distinct points, tangents, weights; degree 1, level 0..2" cost=20
extern "C" void c19_lap_hyp() {
  const int P = 1, M = bsx_choice("M", 0, 2);
  LaplaceHypersingularOperator op;
  Ctx<LaplaceHypersingularOperator, double> c(P, M);
  Pt a = point("a"), b = point("b");
  double d[3], r = dist(a, b, d), g = 1 / (4 * PI * r), h = 1. / (1 << M);
  Eigen::MatrixXd I = c.eval(op, a, b), F = op.evaluateFMMInterpolation(a.sp, b.sp);
  bsx_assert(F.rows() == 2 && F.cols() == 2, "size of the compressed kernel");
  double ca[4][3], cb[4][3];
  for (int i = 0; i < 4; ++i)
    for (int k = 0; k < 3; ++k) {
      // surface curl times surface measure: v d_u phi - u d_v phi
      ca[i][k] = (a.v[k] * basu(P, i, a.s) - a.u[k] * basv(P, i, a.s)) / h;
      cb[i][k] = (b.v[k] * basu(P, i, b.s) - b.u[k] * basv(P, i, b.s)) / h;
    }
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j) bsx_equal(I(i, j), a.w * b.w * g * dot(ca[i], cb[j]), "integrand is the kernel times the surface curls");
  // the components of the compressed kernel belong to the two derivatives
  bsx_equal(F(0, 0), g * dot(a.v, b.v), "compressed kernel");
  bsx_equal(F(0, 1), -g * dot(a.v, b.u), "compressed kernel");
  bsx_equal(F(1, 0), -g * dot(a.u, b.v), "compressed kernel");
  bsx_equal(F(1, 1), g * dot(a.u, b.u), "compressed kernel");
  bsx_cover("end");
}
//! fn=c19_helm_hyp tier=quick bounds="all distinct points, tangents, weights, complex wavenumbers; degree 1, level 0..1" cost=20
extern "C" void c19_helm_hyp() {
  const int P = 1, M = bsx_choice("M", 0, 1);
  HelmholtzHypersingularOperator op;
  C k = wave();
  op.set_wavenumber(k);
  Ctx<HelmholtzHypersingularOperator, C> c(P, M);
  Pt a = point("a"), b = point("b");
  double d[3], r = dist(a, b, d), h = 1. / (1 << M);
  C g = green(k, r), k2 = mul(k, k);
  Eigen::MatrixXcd I = c.eval(op, a, b);
  Eigen::Matrix3cd F = op.evaluateFMMInterpolation(a.sp, b.sp);
  const int i = bsx_choice("i", 0, 3), j = bsx_choice("j", 0, 3);
  if (M > 0 && (i != 1 || j != 2)) bsx_stop();
  double ca[3], cb[3];
  for (int q = 0; q < 3; ++q) {
    ca[q] = (a.v[q] * basu(P, i, a.s) - a.u[q] * basv(P, i, a.s)) / h;
    cb[q] = (b.v[q] * basu(P, j, b.s) - b.u[q] * basv(P, j, b.s)) / h;
  }
  C t = sc(dot(ca, cb), g) - sc(dot(a.n, b.n) * bas(P, i, a.s) * bas(P, j, b.s), mul(k2, g));
  same(I(i, j), sc(a.w * b.w, t), "integrand of the hypersingular operator");
  if (i == 0 && j == 0) {
    const double *D[2] = {a.v, a.u}, *E[2] = {b.v, b.u};
    for (int p = 0; p < 2; ++p)
      for (int q = 0; q < 2; ++q) same(F(p + 1, q + 1), sc((p == q ? 1 : -1) * dot(D[p], E[q]), g), "compressed kernel of the curls");
    same(F(0, 0), sc(-dot(a.n, b.n), mul(k2, g)), "compressed kernel of the normals");
    for (int p = 1; p < 3; ++p) {
      same(F(0, p), C(0, 0), "no mixed terms");
      same(F(p, 0), C(0, 0), "no mixed terms");
    }
  }
  bsx_cover("end");
}
//! fn=c19_maxwell tier=quick bounds="all distinct points, tangents, weights, complex wavenumbers; degree 1, level 0..1" cost=20
extern "C" void c19_maxwell() {
  const int P = 1, M = bsx_choice("M", 0, 1);
  MaxwellSingleLayerOperator op;
  C k = wave();
  op.set_wavenumber(k);
  Ctx<MaxwellSingleLayerOperator, C> c(P, M);
  Pt a = point("a"), b = point("b");
  double d[3], r = dist(a, b, d), h = 1. / (1 << M);
  C g = green(k, r), k2 = mul(k, k);
  // 1/k^2
  double n2 = k2.real() * k2.real() + k2.imag() * k2.imag();
  C ik2 = C(k2.real() / n2, -(k2.imag() / n2));
  Eigen::MatrixXcd I = c.eval(op, a, b);
  bsx_assert(I.rows() == 8 && I.cols() == 8, "size of the integrand");
  const int p = bsx_choice("p", 0, 1), q = bsx_choice("q", 0, 1), i = bsx_choice("i", 0, 3), j = bsx_choice("j", 0, 3);
  if (M > 0 && (i != 1 || j != 2)) bsx_stop();
  double da = (p ? basv(P, i, a.s) : basu(P, i, a.s)) / h, db = (q ? basv(P, j, b.s) : basu(P, j, b.s)) / h;
  C t = sc(dot(p ? a.v : a.u, q ? b.v : b.u) * bas(P, i, a.s) * bas(P, j, b.s), g) - sc(da * db, mul(ik2, g));
  same(I(4 * p + i, 4 * q + j), sc(a.w * b.w, t), "integrand of the electric field operator");
  if (i == 0 && j == 0) {
    Eigen::Matrix4cd F = op.evaluateFMMInterpolation(a.sp, b.sp);
    same(F(2 * p, 2 * q), sc(dot(p ? a.v : a.u, q ? b.v : b.u), g), "compressed kernel of the vector part");
    same(F(2 * p + 1, 2 * q + 1), sc(-1, mul(ik2, g)), "compressed kernel of the divergence part");
    same(F(2 * p, 2 * q + 1), C(0, 0), "no mixed terms");
    same(F(2 * p + 1, 2 * q), C(0, 0), "no mixed terms");
  }
  bsx_cover("end");
}
// products of local basis functions
//! fn=c19_basis tier=quick bounds="degree 0..5, every pair of parameter points, weights" cost=40
extern "C" void c19_basis() {
  const int P = bsx_choice("P", 0, 5), nb = (P + 1) * (P + 1);
  SuperSpace<LaplaceSingleLayerOperator> ss;
  Geometry g = square();
  ss.init_SuperSpace(g, 0, P);
  double s[2] = {bsx_real("s0", 0, 1), bsx_real("s1", 0, 1)}, w = bsx_real("w", -2, 2), z = bsx_real("z", -2, 2);
  Eigen::Vector2d S(s[0], s[1]);
  Eigen::VectorXd b = ss.basis(S), bx = ss.basisDx(S), by = ss.basisDy(S);
  Eigen::VectorXd acc = Eigen::VectorXd::Constant(nb, z), accx = acc, accy = acc;
  ss.addScaledBasis(&acc, w, S);
  ss.addScaledBasisDx(&accx, w, S);
  ss.addScaledBasisDy(&accy, w, S);
  for (int i = 0; i < nb; ++i) {
    bsx_equal(b(i), bas(P, i, s), "local basis");
    bsx_equal(bx(i), basu(P, i, s), "x derivative of the local basis");
    bsx_equal(by(i), basv(P, i, s), "y derivative of the local basis");
    bsx_equal(acc(i), z + w * bas(P, i, s), "scaled local basis");
    bsx_equal(accx(i), z + w * basu(P, i, s), "scaled x derivative");
    bsx_equal(accy(i), z + w * basv(P, i, s), "scaled y derivative");
  }
  Eigen::VectorXd c = ss.basis1D(s[0]), cx = ss.basis1DDx(s[1]);
  for (int i = 0; i <= P; ++i) {
    bsx_equal(c(i), ora::bern(P, i, s[0]), "univariate basis");
    bsx_equal(cx(i), ora::dbern(P, i, s[1]), "univariate derivative");
  }
  bsx_cover("end");
}
//! fn=c19_pairs tier=quick bounds="degree 0..2, products of basis functions at every pair of parameter points, tangents and weights, added to any matrix" cost=40
extern "C" void c19_pairs() {
  const int P = bsx_choice("P", 0, 2), nb = (P + 1) * (P + 1);
  SuperSpace<LaplaceSingleLayerOperator> ss;
  Geometry g = square();
  ss.init_SuperSpace(g, 0, P);
  double s[2] = {bsx_real("s0", 0, 1), bsx_real("s1", 0, 1)}, t[2] = {bsx_real("t0", 0, 1), bsx_real("t1", 0, 1)}, w = bsx_real("w", -2, 2), z = bsx_real("z", -2, 2);
  Eigen::Vector2d S(s[0], s[1]), T(t[0], t[1]);
  Eigen::MatrixXd A = Eigen::MatrixXd::Constant(nb, nb, z);
  ss.addScaledBasisInteraction(&A, w, S, T);
  Eigen::MatrixXd D = Eigen::MatrixXd::Constant(2 * nb, 2 * nb, z);
  ss.addScaledVectorBasisDivergenceInteraction(&D, w, S, T);
  Eigen::MatrixXd Q = ss.basisInteraction(S, T), V = ss.vectorBasisDivergenceInteraction(S, T);
  for (int i = 0; i < nb; ++i)
    for (int j = 0; j < nb; ++j) {
      bsx_equal(A(i, j), z + w * (bas(P, i, s) * bas(P, j, t)), "test function times trial function");
      bsx_equal(Q(i, j), bas(P, i, s) * bas(P, j, t), "test function times trial function");
      for (int p = 0; p < 2; ++p)
        for (int q = 0; q < 2; ++q) {
          double da = p ? basv(P, i, s) : basu(P, i, s), db = q ? basv(P, j, t) : basu(P, j, t);
          bsx_equal(D(p * nb + i, q * nb + j), z + w * (da * db), "divergences of test and trial function");
          bsx_equal(V(p * nb + i, q * nb + j), da * db, "divergences of test and trial function");
        }
    }
  bsx_cover("end");
}
template <class A, class B, class S>
static void transp(A opA, B opB, int P) {
  Ctx<A, S> c(P, 0);
  Ctx<B, S> e(P, 0);
  Pt a = point("a"), b = point("b");
  double d[3];
  dist(a, b, d);
  Eigen::Matrix<S, -1, -1> I = c.eval(opA, a, b), J = e.eval(opB, b, a);
  for (int i = 0; i < I.rows(); ++i)
    for (int j = 0; j < I.cols(); ++j) same(I(i, j), J(j, i), "operator is the transpose of its adjoint");
}
//! fn=c19_sym tier=quick bounds="all point pairs, degree 0..1; every operator exchanged with its transpose" cost=20
extern "C" void c19_sym() {
  switch (bsx_choice("op", 0, 7)) {
    case 0: transp<LaplaceSingleLayerOperator, LaplaceSingleLayerOperator, double>(LaplaceSingleLayerOperator(), LaplaceSingleLayerOperator(), 1); break;
    case 1: transp<LaplaceDoubleLayerOperator, LaplaceAdjointDoubleLayerOperator, double>(LaplaceDoubleLayerOperator(), LaplaceAdjointDoubleLayerOperator(), 1); break;
    case 2: transp<LaplaceHypersingularOperator, LaplaceHypersingularOperator, double>(LaplaceHypersingularOperator(), LaplaceHypersingularOperator(), 1); break;
    case 3: {
      C k = wave();
      HelmholtzSingleLayerOperator o;
      o.set_wavenumber(k);
      transp<HelmholtzSingleLayerOperator, HelmholtzSingleLayerOperator, C>(o, o, 0);
      break;
    }
    case 4: {
      C k = wave();
      HelmholtzDoubleLayerOperator o;
      HelmholtzAdjointDoubleLayerOperator p;
      o.set_wavenumber(k);
      p.set_wavenumber(k);
      transp<HelmholtzDoubleLayerOperator, HelmholtzAdjointDoubleLayerOperator, C>(o, p, 0);
      break;
    }
    case 5: {
      C k = wave();
      HelmholtzHypersingularOperator o;
      o.set_wavenumber(k);
      transp<HelmholtzHypersingularOperator, HelmholtzHypersingularOperator, C>(o, o, 1);
      break;
    }
    case 6: {
      C k = wave();
      MaxwellSingleLayerOperator o;
      o.set_wavenumber(k);
      transp<MaxwellSingleLayerOperator, MaxwellSingleLayerOperator, C>(o, o, 1);
      break;
    }
    case 7: {
      // no wave: the Laplace operators
      HelmholtzDoubleLayerOperator o;
      o.set_wavenumber(C(0, 0));
      Ctx<HelmholtzDoubleLayerOperator, C> c(0, 0);
      Ctx<LaplaceDoubleLayerOperator, double> e(0, 0);
      Pt a = point("a"), b = point("b");
      double d[3];
      dist(a, b, d);
      same(c.eval(o, a, b)(0, 0), C(e.eval(LaplaceDoubleLayerOperator(), a, b)(0, 0), 0), "zero wavenumber gives the Laplace operator");
      break;
    }
  }
  bsx_cover("end");
}
