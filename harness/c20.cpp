// C20: right-hand sides
#include "ops.h"
#include <complex>
#include <Bembel/LinearForm>
using namespace Bembel;
typedef std::complex<double> C;
struct DivC;
namespace Bembel {
template <>
struct LinearOperatorTraits<DivC> {
  typedef Eigen::VectorXcd EigenType;
  typedef C Scalar;
  enum { OperatorOrder = 0, Form = DifferentialForm::DivConforming, NumberOfFMMComponents = 1 };
};
}  // namespace Bembel
struct DivC : LinearOperatorBase<DivC> {};

static double bas(int P, int i, const double *s) { return ora::bern(P, i % (P + 1), s[0]) * ora::bern(P, i / (P + 1), s[1]); }
static void same(double a, double b, const char *m) { bsx_equal(a, b, m); }
static void same(C a, C b, const char *m) {
  bsx_equal(a.real(), b.real(), m);
  bsx_equal(a.imag(), b.imag(), m);
}
static void sym(double &v, const std::string &n) { v = bsx_real(n.c_str(), -4, 4); }
static void sym(C &v, const std::string &n) {
  double a = bsx_real((n + "re").c_str(), -4, 4), b = bsx_real((n + "im").c_str(), -4, 4);
  v = C(a, b);
}
static Geometry square() {
  Eigen::Vector3d c[4];
  for (int j = 0; j < 4; ++j) c[j] = Eigen::Vector3d(CX[j], CY[j], 0);
  return Geometry(std::vector<Patch>{quad(c)});
}
struct Pt {
  double s[2], w, x[3], u[3], v[3], n[3], k;
  SurfacePoint sp;
};
static Pt point() {
  Pt p;
  for (int i = 0; i < 2; ++i) p.s[i] = bsx_real(ora::nm("s", i).c_str(), 0, 1);
  p.w = bsx_real("w", 0, 1);
  for (int i = 0; i < 3; ++i) {
    p.x[i] = bsx_real(ora::nm("x", i).c_str(), -8, 8);
    p.u[i] = bsx_real(ora::nm("u", i).c_str(), -8, 8);
    p.v[i] = bsx_real(ora::nm("v", i).c_str(), -8, 8);
  }
  for (int i = 0; i < 3; ++i) p.n[i] = p.u[(i + 1) % 3] * p.v[(i + 2) % 3] - p.u[(i + 2) % 3] * p.v[(i + 1) % 3];
  double k2 = p.n[0] * p.n[0] + p.n[1] * p.n[1] + p.n[2] * p.n[2];
  bsx_assume(k2 > 1e-6);
  p.k = std::sqrt(k2);
  p.sp << p.s[0], p.s[1], p.w, p.x[0], p.x[1], p.x[2], p.u[0], p.u[1], p.u[2], p.v[0], p.v[1], p.v[2];
  return p;
}
template <class S>
static Eigen::Matrix<S, 3, 1> symf(const char *nm) {
  Eigen::Matrix<S, 3, 1> f;
  for (int i = 0; i < 3; ++i) sym(f(i), ora::nm(nm, i));
  return f;
}
// the function is called with the position of the point
static bool at(const Eigen::Vector3d &y, const Pt &p) { return (y(0) == p.x[0]) & (y(1) == p.x[1]) & (y(2) == p.x[2]); }
template <class S, class Op>
static void pointwise(int P) {
  SuperSpace<Op> ss;
  Geometry g = square();
  ss.init_SuperSpace(g, bsx_choice("M", 0, 1), P);
  const int nb = (P + 1) * (P + 1), kind = bsx_choice("form", 0, 3);
  Pt p = point();
  S z;
  sym(z, "z");
  bool pos = true;
  int calls = 0;
  if (kind < 2) {
    Eigen::Matrix<S, -1, 1> I = Eigen::Matrix<S, -1, 1>::Constant(nb, z);
    S val;
    if (kind == 0) {
      S f;
      sym(f, "f");
      DirichletTrace<S> d;
      d.set_function([&](Eigen::Vector3d y) {
        pos = pos & at(y, p);
        ++calls;
        return f;
      });
      d.evaluateIntegrand_impl(ss, p.sp, &I);
      val = f * p.k;
    } else {
      Eigen::Matrix<S, 3, 1> f = symf<S>("f");
      NeumannTrace<S> d;
      d.set_function([&](Eigen::Vector3d y) {
        pos = pos & at(y, p);
        ++calls;
        return f;
      });
      d.evaluateIntegrand_impl(ss, p.sp, &I);
      val = f(0) * p.n[0] + f(1) * p.n[1] + f(2) * p.n[2];
    }
    for (int i = 0; i < nb; ++i) same(I(i), z + val * (p.w * bas(P, i, p.s)), "trace times test function");
  } else {
    Eigen::Matrix<S, -1, 2> I = Eigen::Matrix<S, -1, 2>::Constant(nb, 2, z);
    Eigen::Matrix<S, 3, 1> f = symf<S>("f"), t;
    auto fun = [&](Eigen::Vector3d y) {
      pos = pos & at(y, p);
      ++calls;
      return f;
    };
    S val[2];
    if (kind == 2) {
      TangentialTrace<S> d;
      d.set_function(fun);
      d.evaluateIntegrand_impl(ss, p.sp, &I);
      // f x n
      for (int i = 0; i < 3; ++i) t(i) = f((i + 1) % 3) * (p.n[(i + 2) % 3] / p.k) - f((i + 2) % 3) * (p.n[(i + 1) % 3] / p.k);
    } else {
      RotatedTangentialTrace<S> d;
      d.set_function(fun);
      d.evaluateIntegrand_impl(ss, p.sp, &I);
      // tangential part; the normal part is orthogonal to the tangents
      t = f;
    }
    val[0] = t(0) * p.u[0] + t(1) * p.u[1] + t(2) * p.u[2];
    val[1] = t(0) * p.v[0] + t(1) * p.v[1] + t(2) * p.v[2];
    for (int q = 0; q < 2; ++q)
      for (int i = 0; i < nb; ++i) same(I(i, q), z + val[q] * (p.w * bas(P, i, p.s)), "tangential trace times test function");
  }
  bsx_assert(pos, "data are evaluated at the point");
  bsx_assert(calls > 0, "data are evaluated");
}
//! fn=c20_point tier=quick bounds="all positions, tangents, weights and data values; real data; degree 0..1" cost=30
extern "C" void c20_point() {
  pointwise<double, DiscOp>(bsx_choice("P", 0, 1));
  bsx_cover("end");
}
//! fn=c20_point_complex tier=quick bounds="all positions, tangents, weights and data values; complex data; degree 0..1" cost=30
extern "C" void c20_point_complex() {
  pointwise<C, DivC>(bsx_choice("P", 0, 1));
  bsx_cover("end");
}

// rectangles in the planes y:z = 3:4, x from 2p to 2p+2, y from 0 to .6 H
static const double W = 2, H = 1.5, NY = -.8, NZ = .6;
static Geometry rects(int np) {
  std::vector<Patch> pv;
  for (int p = 0; p < np; ++p) {
    Eigen::Vector3d c[4];
    for (int j = 0; j < 4; ++j) c[j] = Eigen::Vector3d(W * (CX[j] + p), .6 * H * CY[j], .8 * H * CY[j]);
    pv.push_back(quad(c));
  }
  return Geometry(pv);
}
static double mono(int d, int p, int k) {
  double r = ora::binom(p, k);
  const int a = d + k, b = p - k;
  double f = 1;
  for (int i = 1; i <= b; ++i) f = f * i / (a + i);
  return r * f / (a + b + 1);
}
// integral over [0,1] of (x0 + a t)^d times Bernstein (p,k)
static double integ(int d, double x0, double a, int p, int k) {
  double s = 0;
  for (int j = 0; j <= d; ++j) s += ora::binom(d, j) * ora::ipow(x0, d - j) * ora::ipow(a, j) * mono(j, p, k);
  return s;
}
// integrals of the data against the local basis functions of all elements:
// polynomial with the given coefficients of x^a y^b
struct Poly {
  int D;
  std::vector<double> c;
  Poly(int D, const char *nm) : D(D) {
    for (int a = 0; a <= D; ++a)
      for (int b = 0; b <= D; ++b) c.push_back(bsx_real(ora::nm(nm, a, b).c_str(), -1, 1));
  }
  double operator()(double x, double y) const {
    double r = 0;
    for (int a = 0; a <= D; ++a)
      for (int b = 0; b <= D; ++b) r += c[a * (D + 1) + b] * (ora::ipow(x, a) * ora::ipow(y, b));
    return r;
  }
  // integral over the element at (lx,ly) of patch p, without measure
  double exact(int p, double lx, double ly, double h, int P, int i) const {
    double r = 0;
    for (int a = 0; a <= D; ++a) {
      const double X = integ(a, W * (lx + p), W * h, P, i % (P + 1));
      for (int b = 0; b <= D; ++b) r += c[a * (D + 1) + b] * (X * integ(b, .6 * H * ly, .6 * H * h, P, i / (P + 1)));
    }
    return r;
  }
};
template <class Op>
static Eigen::VectorXd project(const AnsatzSpace<Op> &as, const std::vector<double> &loc) {
  Eigen::SparseMatrix<double> T = as.get_transformation_matrix();
  bsx_assert(T.rows() == (int)loc.size(), "number of local functions");
  Eigen::VectorXd r = Eigen::VectorXd::Zero(T.cols());
  for (int k = 0; k < T.outerSize(); ++k)
    for (Eigen::SparseMatrix<double>::InnerIterator it(T, k); it; ++it) r(it.col()) += it.value() * loc[it.row()];
  return r;
}
static void cmp(const Eigen::VectorXd &a, const Eigen::VectorXd &b, const char *m) {
  bsx_assert(a.size() == b.size(), "one entry per degree of freedom");
  for (int i = 0; i < a.size(); ++i) bsx_close(a(i), b(i), 1e-8, m);
}
template <class Op>
static void scalarForm(int np, int M, int P, int deg, int D) {
  AnsatzSpace<Op> as(rects(np), M, P);
  const ElementTree &et = as.get_superspace().get_mesh().get_element_tree();
  const int N = et.get_number_of_elements(), nb = (P + 1) * (P + 1);
  const double h = 1. / (1 << M), kap = W * H;
  Poly f(D, "f");
  std::vector<double> loc(N * nb, 0.);
  const int neu = bsx_choice("neumann", 0, 1);
  for (auto e = et.cpbegin(); e != et.cpend(); ++e)
    // half of the functions have a factor from the surface measure and the
    // scaling of the basis: h^2 / h
    for (int i = 0; i < nb; ++i) loc[e->id_ * nb + i] = h * kap * f.exact(e->patch_, e->llc_(0), e->llc_(1), h, P, i);
  if (!neu) {
    DiscreteLinearForm<DirichletTrace<double>, Op> lf(as);
    lf.get_linear_form().set_function([&](Eigen::Vector3d x) { return f(x(0), x(1)); });
    if (deg >= 0) lf.set_degree(deg);
    lf.compute();
    cmp(lf.get_discrete_linear_form(), project(as, loc), "Dirichlet data against the basis");
    lf.compute();
    cmp(lf.get_discrete_linear_form(), project(as, loc), "assembling again gives the same");
  } else {
    // vector field (f, 2f, -f): normal component 2 f NY - f NZ
    DiscreteLinearForm<NeumannTrace<double>, Op> lf(as);
    lf.get_linear_form().set_function([&](Eigen::Vector3d x) {
      double v = f(x(0), x(1));
      return Eigen::Vector3d(v, 2 * v, -v);
    });
    if (deg >= 0) lf.set_degree(deg);
    lf.compute();
    for (auto &l : loc) l *= 2 * NY - NZ;
    cmp(lf.get_discrete_linear_form(), project(as, loc), "Neumann data against the basis");
  }
}
//! fn=c20_disc tier=quick bounds="discontinuous space, one..two patches, level 0..2, degree 0..2, all polynomial data of degree 3" cost=60
extern "C" void c20_disc() {
  const int M = bsx_choice("M", 0, 2), P = bsx_choice("P", 0, 2);
  if (M == 2 && P == 2) bsx_stop();
  scalarForm<DiscOp>(bsx_choice("np", 1, 2), M, P, -1, 3);
  bsx_cover("end");
}
//! fn=c20_cont tier=quick bounds="continuous space, one..two patches, level 0..2, degree 1..2, all polynomial data of degree 3" cost=60
extern "C" void c20_cont() {
  const int M = bsx_choice("M", 0, 2), P = bsx_choice("P", 1, 2);
  if (M == 2 && P == 2) bsx_stop();
  scalarForm<ContOp>(bsx_choice("np", 1, 2), M, P, -1, 3);
  bsx_cover("end");
}
//! fn=c20_degree tier=quick bounds="user defined quadrature degree 1..5 with all polynomials it integrates exactly, degree 1, level 1" cost=30
extern "C" void c20_degree() {
  const int q = bsx_choice("q", 1, 5);
  scalarForm<DiscOp>(1, 1, 1, q, 2 * q);
  bsx_cover("end");
}
//! fn=c20_div tier=quick bounds="vector valued space, one..two patches, level 0..1, degree 1..2, all polynomial data of degree 2" cost=60
extern "C" void c20_div() {
  const int M = bsx_choice("M", 0, 1), P = bsx_choice("P", 1, 2), np = bsx_choice("np", 1, 2), rot = bsx_choice("rotated", 0, 1);
  AnsatzSpace<DivOp> as(rects(np), M, P);
  const ElementTree &et = as.get_superspace().get_mesh().get_element_tree();
  const int N = et.get_number_of_elements(), nb = (P + 1) * (P + 1);
  const double h = 1. / (1 << M);
  Poly f(2, "f"), g(2, "g");
  // field (f, g, 0); n = (0, NY, NZ); u = (W,0,0), v = (0, .6H, .8H)
  auto fun = [&](Eigen::Vector3d x) { return Eigen::Vector3d(f(x(0), x(1)), g(x(0), x(1)), 0); };
  std::vector<double> loc(2 * N * nb, 0.);
  for (auto e = et.cpbegin(); e != et.cpend(); ++e)
    for (int i = 0; i < nb; ++i) {
      double F = f.exact(e->patch_, e->llc_(0), e->llc_(1), h, P, i), G = g.exact(e->patch_, e->llc_(0), e->llc_(1), h, P, i);
      double U, V;
      if (rot) {
        U = W * F;
        V = .6 * H * G;
      } else {
        // (f,g,0) x n = (g NZ, -f NZ, f NY)
        U = W * NZ * G;
        V = .6 * H * -NZ * F + .8 * H * NY * F;
      }
      loc[e->id_ * nb + i] = h * U;
      loc[N * nb + e->id_ * nb + i] = h * V;
    }
  if (rot) {
    DiscreteLinearForm<RotatedTangentialTrace<double>, DivOp> lf(as);
    lf.get_linear_form().set_function(fun);
    lf.compute();
    cmp(lf.get_discrete_linear_form(), project(as, loc), "rotated tangential trace against the basis");
  } else {
    DiscreteLinearForm<TangentialTrace<double>, DivOp> lf(as);
    lf.get_linear_form().set_function(fun);
    lf.compute();
    cmp(lf.get_discrete_linear_form(), project(as, loc), "tangential trace against the basis");
  }
  bsx_cover("end");
}
