// C21: local operators
#include "ops.h"
#include <Bembel/Identity>
#include <Bembel/LaplaceBeltrami>
using namespace Bembel;

static double bas(int P, int i, const double *s) { return ora::bern(P, i % (P + 1), s[0]) * ora::bern(P, i / (P + 1), s[1]); }
static double bdx(int P, int i, const double *s) { return ora::dbern(P, i % (P + 1), s[0]) * ora::bern(P, i / (P + 1), s[1]); }
static double bdy(int P, int i, const double *s) { return ora::bern(P, i % (P + 1), s[0]) * ora::dbern(P, i / (P + 1), s[1]); }
static Geometry square() {
  Eigen::Vector3d c[4];
  for (int j = 0; j < 4; ++j) c[j] = Eigen::Vector3d(CX[j], CY[j], 0);
  return Geometry(std::vector<Patch>{quad(c)});
}
struct Pt {
  double s[2], w, x[3], u[3], v[3], k, uu, uv, vv;
  SurfacePoint sp;
};
static Pt point() {
  Pt p;
  for (int i = 0; i < 2; ++i) p.s[i] = bsx_real(ora::nm("s", i).c_str(), 0, 1);
  p.w = bsx_real("w", 0, 1);
  double n[3];
  for (int i = 0; i < 3; ++i) {
    p.x[i] = bsx_real(ora::nm("x", i).c_str(), -8, 8);
    p.u[i] = bsx_real(ora::nm("u", i).c_str(), -8, 8);
    p.v[i] = bsx_real(ora::nm("v", i).c_str(), -8, 8);
  }
  for (int i = 0; i < 3; ++i) n[i] = p.u[(i + 1) % 3] * p.v[(i + 2) % 3] - p.u[(i + 2) % 3] * p.v[(i + 1) % 3];
  double k2 = n[0] * n[0] + n[1] * n[1] + n[2] * n[2];
  bsx_assume(k2 > 1e-6);
  p.k = std::sqrt(k2);
  p.uu = p.uv = p.vv = 0;
  for (int i = 0; i < 3; ++i) p.uu += p.u[i] * p.u[i], p.uv += p.u[i] * p.v[i], p.vv += p.v[i] * p.v[i];
  p.sp << p.s[0], p.s[1], p.w, p.x[0], p.x[1], p.x[2], p.u[0], p.u[1], p.u[2], p.v[0], p.v[1], p.v[2];
  return p;
}
//! fn=c21_mass_point tier=quick bounds="all reference points, tangents, weights; degree 0..2, level 0..1" cost=30
extern "C" void c21_mass_point() {
  const int P = bsx_choice("P", 0, 2), nb = (P + 1) * (P + 1);
  Pt p = point();
  double z = bsx_real("z", -4, 4);
  Eigen::MatrixXd I = Eigen::MatrixXd::Constant(nb, nb, z);
  Geometry g = square();
  if (P == 0 || bsx_choice("cont", 0, 1) == 0) {
    SuperSpace<MassMatrixScalarDisc> ss;
    ss.init_SuperSpace(g, bsx_choice("M", 0, 1), P);
    MassMatrixScalarDisc op;
    op.evaluateIntegrand(ss, p.sp, p.sp, &I);
  } else {
    SuperSpace<MassMatrixScalarCont> ss;
    ss.init_SuperSpace(g, bsx_choice("M", 0, 1), P);
    MassMatrixScalarCont op;
    op.evaluateIntegrand(ss, p.sp, p.sp, &I);
  }
  for (int i = 0; i < nb; ++i)
    for (int j = 0; j < nb; ++j) bsx_equal(I(i, j), z + p.k * p.w * (bas(P, i, p.s) * bas(P, j, p.s)), "mass density");
  bsx_cover("end");
}
// kappa times the integrand is the weight times the gradient product, whose
// factor 1/kappa^2 comes from the inverse of the first fundamental form
//! fn=c21_lb_point tier=quick bounds="all reference points, tangents, weights; degree 1..2, level 0..1" cost=60
extern "C" void c21_lb_point() {
  const int P = bsx_choice("P", 1, 2), nb = (P + 1) * (P + 1), M = bsx_choice("M", 0, 1);
  Pt p = point();
  Geometry g = square();
  SuperSpace<LaplaceBeltramiOperator> ss;
  ss.init_SuperSpace(g, M, P);
  LaplaceBeltramiOperator op;
  Eigen::MatrixXd I = Eigen::MatrixXd::Zero(nb, nb);
  op.evaluateIntegrand(ss, p.sp, p.sp, &I);
  for (int i = 0; i < nb; ++i)
    for (int j = 0; j < nb; ++j) {
      double f = bdx(P, i, p.s) * bdx(P, j, p.s) * p.vv - (bdx(P, i, p.s) * bdy(P, j, p.s) + bdy(P, i, p.s) * bdx(P, j, p.s)) * p.uv +
                 bdy(P, i, p.s) * bdy(P, j, p.s) * p.uu;
      bsx_equal(I(i, j) * p.k, (double)(1 << (2 * M)) * p.w * f, "surface gradient product");
    }
  bsx_cover("end");
}
// integral of Bernstein products
static double bb(int a, int i, int b, int j) {
  if (i < 0 || j < 0 || i > a || j > b) return 0;
  return ora::binom(a, i) * ora::binom(b, j) / ora::binom(a + b, i + j) / (a + b + 1);
}
static double b00(int p, int i, int j) { return bb(p, i, p, j); }
static double b10(int p, int i, int j) { return p * (bb(p - 1, i - 1, p, j) - bb(p - 1, i, p, j)); }
static double b11(int p, int i, int j) {
  return p * p * (bb(p - 1, i - 1, p - 1, j - 1) - bb(p - 1, i, p - 1, j - 1) - bb(p - 1, i - 1, p - 1, j) + bb(p - 1, i, p - 1, j));
}
// parallelograms in the planes y:z = 3:4 spanned by (W,0,0) and (S,.6H,.8H)
static const double W = 2, H = 1.5;
static Geometry paras(int np, double S) {
  std::vector<Patch> pv;
  for (int p = 0; p < np; ++p) {
    Eigen::Vector3d c[4];
    for (int j = 0; j < 4; ++j) c[j] = Eigen::Vector3d(W * (CX[j] + p) + S * CY[j], .6 * H * CY[j], .8 * H * CY[j]);
    pv.push_back(quad(c));
  }
  return Geometry(pv);
}
// matrix times vector in the local basis, symbolic coefficients
template <class Op, bool LB>
static void assembled(int np, double S, int M, int P, bool twice) {
  AnsatzSpace<Op> as(paras(np, S), M, P);
  DiscreteLocalOperator<Op> dop(as);
  dop.compute();
  if (twice) dop.compute();
  const Eigen::SparseMatrix<double> A = dop.get_discrete_operator();
  const Eigen::SparseMatrix<double> T = as.get_transformation_matrix();
  const ElementTree &et = as.get_superspace().get_mesh().get_element_tree();
  const int N = et.get_number_of_elements(), nb = (P + 1) * (P + 1), n = T.cols();
  bsx_assert(T.rows() == N * nb, "number of local functions");
  bsx_assert((A.rows() == n) & (A.cols() == n), "one row and column per degree of freedom");
  std::vector<double> v(n), l(N * nb, 0.), Al(N * nb, 0.), Av(n, 0.), ex(n, 0.);
  for (int i = 0; i < n; ++i) v[i] = bsx_real(ora::nm("v", i).c_str(), -1, 1);
  for (int k = 0; k < T.outerSize(); ++k)
    for (Eigen::SparseMatrix<double>::InnerIterator it(T, k); it; ++it) l[it.row()] += it.value() * v[it.col()];
  const double uu = W * W, uv = W * S, vv = S * S + H * H, kap = W * H, h2 = 1. / (1 << (2 * M));
  for (int e = 0; e < N; ++e)
    for (int i = 0; i < nb; ++i)
      for (int j = 0; j < nb; ++j) {
        const int ix = i % (P + 1), iy = i / (P + 1), jx = j % (P + 1), jy = j / (P + 1);
        double m;
        if (LB)
          m = 1 / (kap * h2) *
              (b11(P, ix, jx) * b00(P, iy, jy) * vv - (b10(P, ix, jx) * b10(P, jy, iy) + b10(P, jx, ix) * b10(P, iy, jy)) * uv +
               b00(P, ix, jx) * b11(P, iy, jy) * uu);
        else
          m = kap * b00(P, ix, jx) * b00(P, iy, jy);
        Al[e * nb + i] += m * l[e * nb + j];
      }
  for (int k = 0; k < T.outerSize(); ++k)
    for (Eigen::SparseMatrix<double>::InnerIterator it(T, k); it; ++it) ex[it.col()] += it.value() * Al[it.row()];
  for (int k = 0; k < A.outerSize(); ++k)
    for (Eigen::SparseMatrix<double>::InnerIterator it(A, k); it; ++it) Av[it.row()] += it.value() * v[it.col()];
  for (int i = 0; i < n; ++i) bsx_close(Av[i], ex[i], 1e-8, LB ? "energy" : "inner product");
  // symmetric: v^T A e_i = (A v)_i
  std::vector<double> vA(n, 0.);
  for (int k = 0; k < A.outerSize(); ++k)
    for (Eigen::SparseMatrix<double>::InnerIterator it(A, k); it; ++it) vA[it.col()] += it.value() * v[it.row()];
  for (int i = 0; i < n; ++i) bsx_close(vA[i], Av[i], 1e-10, "symmetric");
}
template <class Op, bool LB>
static void run(int M, int P) {
  if (M == 2 && P == 3) bsx_stop();
  const int np = bsx_choice("np", 1, 2);
  assembled<Op, LB>(np, bsx_choice("shear", 0, 1) * .75, M, P, M == 0);
}
//! fn=c21_mass_disc tier=quick bounds="all coefficients, one..two parallelograms, level 0..2, degree 0..3" cost=60
extern "C" void c21_mass_disc() {
  const int M = bsx_choice("M", 0, 2), P = bsx_choice("P", 0, 3);
  if (M == 2 && P == 2) bsx_stop();
  run<MassMatrixScalarDisc, false>(M, P);
  bsx_cover("end");
}
//! fn=c21_mass_cont tier=quick bounds="all coefficients, one..two parallelograms, level 0..2, degree 1..3" cost=60
extern "C" void c21_mass_cont() {
  const int M = bsx_choice("M", 0, 2), P = bsx_choice("P", 1, 3);
  run<MassMatrixScalarCont, false>(M, P);
  bsx_cover("end");
}
//! fn=c21_lb tier=quick bounds="all coefficients, one..two parallelograms, level 0..2, degree 1..3" cost=60
extern "C" void c21_lb() {
  const int M = bsx_choice("M", 0, 2), P = bsx_choice("P", 1, 3);
  run<LaplaceBeltramiOperator, true>(M, P);
  bsx_cover("end");
}
//! fn=c21_deep tier=thorough bounds="all coefficients, one..three parallelograms, two shears, level 0..3, degree 1..6" cost=600 time=800
extern "C" void c21_deep() {
  const int M = bsx_choice("M", 0, 3), P = bsx_choice("P", 1, 6), np = bsx_choice("np", 1, 3), o = bsx_choice("op", 0, 2);
  if (M * P > 6) bsx_stop();
  const double S = bsx_choice("shear", 0, 2) * .75 - .5;
  if (o == 0) assembled<MassMatrixScalarDisc, false>(np, S, M, P, false);
  if (o == 1) assembled<MassMatrixScalarCont, false>(np, S, M, P, false);
  if (o == 2) assembled<LaplaceBeltramiOperator, true>(np, S, M, P, false);
  bsx_cover("end");
}
