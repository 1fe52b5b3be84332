#include "common.h"
#include <Bembel/Spline>
using namespace Bembel;
using Basis::ShapeFunctionHandler;
typedef Eigen::Matrix<double, Eigen::Dynamic, 1> Vec;
typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> Mat;

// dispatched basis values, directly and through the function pointers
static void basis(int p) {
  double x = bsx_real("x", 0, 1);
  std::vector<double> b(p + 1, 7.), b2(p + 1, 7.), d(p + 1, 7.), d2(p + 1, 7.);
  ShapeFunctionHandler::evalBasis(p, b.data(), x);
  ShapeFunctionHandler::ptrEvalBasis(p)(b2.data(), x);
  double s = 0, ds = 0;
  for (int k = 0; k <= p; ++k) {
    bsx_equal(b[k], ora::bern(p, k, x), "basis value is the Bernstein polynomial");
    bsx_equal(b2[k], ora::bern(p, k, x), "basis value through pointer");
    bsx_assert(b[k] >= 0, "basis value non-negative");
    s += b[k];
  }
  bsx_equal(s, 1, "partition of unity");
  if (p > 0) {
    ShapeFunctionHandler::evalDerBasis(p, d.data(), x);
    ShapeFunctionHandler::ptrEvalDerBasis(p)(d2.data(), x);
    for (int k = 0; k <= p; ++k) {
      bsx_equal(d[k], ora::dbern(p, k, x), "derivative of the basis");
      bsx_equal(d2[k], ora::dbern(p, k, x), "derivative of the basis through pointer");
      ds += d[k];
    }
    bsx_equal(ds, 0, "derivatives sum to zero");
  }
  bsx_cover("end");
}
// coefficient evaluation
static void coef(int p) {
  double x = bsx_real("x", 0, 1);
  std::vector<double> c(p + 1);
  for (int i = 0; i <= p; ++i) c[i] = bsx_real(ora::nm("c", i).c_str(), -10, 10);
  double v = 0, dv = 0;
  for (int i = 0; i <= p; ++i) {
    v += c[i] * ora::bern(p, i, x);
    dv += c[i] * ora::dbern(p, i, x);
  }
  bsx_equal(ShapeFunctionHandler::evalCoef(p, c.data(), x), v, "coefficient evaluation");
  if (p > 0) {
    bsx_equal(ShapeFunctionHandler::evalDerCoef(p, c.data(), x), dv, "derivative of coefficient evaluation");
  }
  bsx_cover("end");
}
//! fn=c01_basis tier=quick bounds="degrees 0..20 (the whole dispatch table), every real x in [0,1]"
extern "C" void c01_basis() { basis(bsx_choice("p", 0, Constants::MaxP)); }
//! fn=c01_coef tier=quick bounds="degrees 0..20, every real x in [0,1], every coefficient vector in [-10,10]^(p+1)"
extern "C" void c01_coef() { coef(bsx_choice("p", 0, Constants::MaxP)); }

template <int P>
static void bulk() {
  const int N = 3;
  std::vector<double> xs;
  for (int i = 0; i < N; ++i) xs.push_back(bsx_real(ora::nm("x", i).c_str(), 0, 1));
  std::vector<double> c(P + 1);
  for (int i = 0; i <= P; ++i) c[i] = bsx_real(ora::nm("c", i).c_str(), -10, 10);
  std::vector<double> out(N, 3.), dout(N, 3.);
  Basis::EvalBernstein<double, P>(c.data(), xs, out.data());
  std::vector<double> out2 = Basis::EvalBernstein<double, P>(c.data(), xs);
  bsx_assert(out2.size() == N, "size");
  for (int j = 0; j < N; ++j) {
    double v = 0;
    for (int i = 0; i <= P; ++i) v += c[i] * ora::bern(P, i, xs[j]);
    bsx_equal(out[j], v, "bulk value (pointer)");
    bsx_equal(out2[j], v, "bulk value (vector)");
  }
  if (P > 0) {
    Basis::EvalBernsteinDer<double, (P > 0 ? P : 1)>(c.data(), xs, dout.data());
    std::vector<double> dout2 = Basis::EvalBernsteinDer<double, (P > 0 ? P : 1)>(c.data(), xs);
    for (int j = 0; j < N; ++j) {
      double v = 0;
      for (int i = 0; i <= P; ++i) v += c[i] * ora::dbern(P, i, xs[j]);
      bsx_equal(dout[j], v, "bulk derivative (pointer)");
      bsx_equal(dout2[j], v, "bulk derivative (vector)");
    }
  }
  // accumulating variants
  std::vector<double> a(P + 1), d(P + 1);
  for (int i = 0; i <= P; ++i) a[i] = d[i] = c[i];
  Basis::EvalBernsteinBasisPEQ<double, P>(a.data(), xs[0]);
  for (int i = 0; i <= P; ++i) bsx_equal(a[i], c[i] + ora::bern(P, i, xs[0]), "accumulated basis");
  if (P > 0) {
    Basis::EvalBernsteinDerBasisPEQ<double, (P > 0 ? P : 1)>(d.data(), xs[1]);
    for (int i = 0; i <= P; ++i) bsx_equal(d[i], c[i] + ora::dbern(P, i, xs[1]), "accumulated derivative basis");
  }
  bsx_cover("end");
}
//! fn=c01_bulk tier=quick bounds="degrees 0..10, three points at once, coefficients in [-10,10]"
extern "C" void c01_bulk() {
  switch (bsx_choice("p", 0, 10)) {
    case 0: return bulk<0>();
    case 1: return bulk<1>();
    case 2: return bulk<2>();
    case 3: return bulk<3>();
    case 4: return bulk<4>();
    case 5: return bulk<5>();
    case 6: return bulk<6>();
    case 7: return bulk<7>();
    case 8: return bulk<8>();
    case 9: return bulk<9>();
    default: return bulk<10>();
  }
}

static void tensor(int p) {
  typedef Basis::BasisHandler<double> H;
  const int I = p + 1, I2 = I * I;
  double x = bsx_real("x", 0, 1), y = bsx_real("y", 0, 1), w = bsx_real("w", -4, 4);
  // accumulation starts from a non-zero vector
  Vec c0(I2);
  for (int i = 0; i < I2; ++i) c0(i) = bsx_real(ora::nm("c", i).c_str(), -1, 1);
  Eigen::Vector2d a(x, y);
  Vec l(I), dl(I);
  for (int i = 0; i < I; ++i) l(i) = dl(i) = c0(i);
  H::phi(p, &l, w, x);
  Vec l2 = dl;
  H::funPtrPhi(p)(&l2, w, x);
  for (int i = 0; i < I; ++i) {
    bsx_equal(l(i), c0(i) + w * ora::bern(p, i, x), "phi");
    bsx_equal(l2(i), c0(i) + w * ora::bern(p, i, x), "phi pointer");
  }
  Vec f = c0, f2 = c0;
  H::phiPhi(p, &f, w, a);
  H::funPtrPhiPhi(p)(&f2, w, a);
  for (int iy = 0; iy < I; ++iy)
    for (int ix = 0; ix < I; ++ix) {
      double e = c0(iy * I + ix) + w * ora::bern(p, ix, x) * ora::bern(p, iy, y);
      bsx_equal(f(iy * I + ix), e, "phiPhi");
      bsx_equal(f2(iy * I + ix), e, "phiPhi pointer");
    }
  if (p > 0) {
    Vec dl2 = dl, fx = c0, fx2 = c0, fy = c0, fy2 = c0;
    H::phiDx(p, &dl, w, x);
    H::funPtrPhiDx(p)(&dl2, w, x);
    for (int i = 0; i < I; ++i) {
      bsx_equal(dl(i), c0(i) + w * ora::dbern(p, i, x), "phiDx");
      bsx_equal(dl2(i), c0(i) + w * ora::dbern(p, i, x), "phiDx pointer");
    }
    H::phiPhiDx(p, &fx, w, a);
    H::funPtrPhiPhiDx(p)(&fx2, w, a);
    H::phiPhiDy(p, &fy, w, a);
    H::funPtrPhiPhiDy(p)(&fy2, w, a);
    for (int iy = 0; iy < I; ++iy)
      for (int ix = 0; ix < I; ++ix) {
        int i = iy * I + ix;
        double ex = c0(i) + w * ora::dbern(p, ix, x) * ora::bern(p, iy, y);
        double ey = c0(i) + w * ora::bern(p, ix, x) * ora::dbern(p, iy, y);
        bsx_equal(fx(i), ex, "phiPhiDx");
        bsx_equal(fx2(i), ex, "phiPhiDx pointer");
        bsx_equal(fy(i), ey, "phiPhiDy");
        bsx_equal(fy2(i), ey, "phiPhiDy pointer");
      }
  }
  bsx_cover("end");
}
//! fn=c01_tensor tier=quick bounds="degrees 0..6, every real x,y in [0,1], weights in [-4,4], accumulation onto arbitrary vectors"
extern "C" void c01_tensor() { tensor(bsx_choice("p", 0, 6)); }
//! fn=c01_tensor_deep tier=thorough bounds="degrees 7..12, every real x,y in [0,1]"
extern "C" void c01_tensor_deep() { tensor(bsx_choice("p", 7, 12)); }

static void pairs(int p) {
  typedef Basis::BasisHandler<double> H;
  const int I = p + 1, I2 = I * I;
  double w = bsx_real("w", -4, 4);
  Eigen::Vector2d xi(bsx_real("x", 0, 1), bsx_real("y", 0, 1)), eta(bsx_real("s", 0, 1), bsx_real("t", 0, 1));
  Mat m = Mat::Zero(I2, I2), m2 = Mat::Zero(I2, I2);
  m(0, 0) = m2(0, 0) = 5;
  H::phiTimesPhi(p, &m, w, xi, eta);
  H::funPtrPhiTimesPhi(p)(&m2, w, xi, eta);
  std::vector<double> a(I2), ax(I2), ay(I2), b(I2), bx(I2), by(I2);
  for (int iy = 0; iy < I; ++iy)
    for (int ix = 0; ix < I; ++ix) {
      int i = iy * I + ix;
      a[i] = ora::bern(p, ix, xi(0)) * ora::bern(p, iy, xi(1));
      ax[i] = ora::dbern(p, ix, xi(0)) * ora::bern(p, iy, xi(1));
      ay[i] = ora::bern(p, ix, xi(0)) * ora::dbern(p, iy, xi(1));
      b[i] = ora::bern(p, ix, eta(0)) * ora::bern(p, iy, eta(1));
      bx[i] = ora::dbern(p, ix, eta(0)) * ora::bern(p, iy, eta(1));
      by[i] = ora::bern(p, ix, eta(0)) * ora::dbern(p, iy, eta(1));
    }
  for (int i = 0; i < I2; ++i)
    for (int j = 0; j < I2; ++j) {
      double e = w * a[i] * b[j] + (i + j == 0 ? 5 : 0);
      bsx_equal(m(i, j), e, "phiTimesPhi");
      bsx_equal(m2(i, j), e, "phiTimesPhi pointer");
    }
  if (p > 0) {
    Mat d = Mat::Zero(2 * I2, 2 * I2), d2 = d;
    H::divPhiTimesDivPhi(p, &d, w, xi, eta);
    H::funPtrDivPhiTimesDivPhi(p)(&d2, w, xi, eta);
    for (int i = 0; i < 2 * I2; ++i)
      for (int j = 0; j < 2 * I2; ++j) {
        double e = w * (i < I2 ? ax[i] : ay[i - I2]) * (j < I2 ? bx[j] : by[j - I2]);
        bsx_equal(d(i, j), e, "divPhiTimesDivPhi");
        bsx_equal(d2(i, j), e, "divPhiTimesDivPhi pointer");
      }
  }
  bsx_cover("end");
}
//! fn=c01_pairs tier=quick bounds="degrees 0..2, every pair of real points"
extern "C" void c01_pairs() { pairs(bsx_choice("p", 0, 2)); }
//! fn=c01_pairs_deep tier=thorough bounds="degrees 3..4, every pair of real points"
extern "C" void c01_pairs_deep() { pairs(bsx_choice("p", 3, 4)); }
