// C18: products with compressed matrices
#include "ops.h"
#include <complex>
#include <Bembel/H2Matrix>
using namespace Bembel;
typedef std::complex<double> C;

// Operators with cheap kernels; the entries of all blocks are replaced by
// symbols after the matrix has been set up by the library.
struct Sc;   // scalar valued, one component per interpolation point
struct Sg;   // scalar valued, continuous, two components (derivatives)
struct Ve;   // vector valued, complex, two components per interpolation point
namespace Bembel {
template <>
struct LinearOperatorTraits<Sc> {
  typedef Eigen::VectorXd EigenType;
  typedef double Scalar;
  enum { OperatorOrder = 0, Form = DifferentialForm::Discontinuous, NumberOfFMMComponents = 1 };
};
template <>
struct LinearOperatorTraits<Sg> {
  typedef Eigen::VectorXd EigenType;
  typedef double Scalar;
  enum { OperatorOrder = 1, Form = DifferentialForm::Continuous, NumberOfFMMComponents = 2 };
};
template <>
struct LinearOperatorTraits<Ve> {
  typedef Eigen::VectorXcd EigenType;
  typedef C Scalar;
  enum { OperatorOrder = -1, Form = DifferentialForm::DivConforming, NumberOfFMMComponents = 2 };
};
}  // namespace Bembel
#define ZEROOP(T, S, n)                                                                                              \
  struct T : LinearOperatorBase<T> {                                                                                 \
    template <class U>                                                                                               \
    void evaluateIntegrand_impl(const U &, const SurfacePoint &, const SurfacePoint &, Eigen::Matrix<S, -1, -1> *i) const { \
      i->setZero();                                                                                                  \
    }                                                                                                                \
    Eigen::Matrix<S, n, n> evaluateFMMInterpolation_impl(const SurfacePoint &, const SurfacePoint &) const {         \
      return Eigen::Matrix<S, n, n>::Zero();                                                                         \
    }                                                                                                                \
  };
ZEROOP(Sc, double, 1)
ZEROOP(Sg, double, 2)
ZEROOP(Ve, C, 4)
namespace Bembel {
namespace H2Multipole {
template <class I>
struct Moment2D<I, Sg> {
  static std::vector<Eigen::MatrixXd> compute2DMoment(const SuperSpace<Sg> &s, const int l, const int r, const int n) {
    Eigen::MatrixXd m(2 * n * n, 0);
    Eigen::MatrixXd a = moment2DComputer<Moment1DDerivative<I, Sg>, Moment1D<I, Sg>>(s, l, r, n), b = moment2DComputer<Moment1D<I, Sg>, Moment1DDerivative<I, Sg>>(s, l, r, n);
    m.resize(2 * n * n, a.cols());
    m << a, b;
    return {m};
  }
};
template <class I>
struct Moment2D<I, Ve> {
  static std::vector<Eigen::MatrixXd> compute2DMoment(const SuperSpace<Ve> &s, const int l, const int r, const int n) {
    Eigen::MatrixXd a = moment2DComputer<Moment1DDerivative<I, Ve>, Moment1D<I, Ve>>(s, l, r, n), b = moment2DComputer<Moment1D<I, Ve>, Moment1DDerivative<I, Ve>>(s, l, r, n),
                    c = moment2DComputer<Moment1D<I, Ve>, Moment1D<I, Ve>>(s, l, r, n);
    Eigen::MatrixXd m(2 * n * n, a.cols()), k(2 * n * n, a.cols());
    m << c, a;
    k << c, b;
    return {m, k};
  }
};
}  // namespace H2Multipole
}  // namespace Bembel

// two glued patches and a third one: far away or close by
static Geometry surf(int np, double third) {
  std::vector<Patch> pv;
  for (int p = 0; p < np; ++p) {
    Eigen::Vector3d c[4];
    for (int j = 0; j < 4; ++j) c[j] = Eigen::Vector3d(CX[j] + (p < 2 ? p : third), CY[j], 0);
    pv.push_back(quad(c));
  }
  return Geometry(pv);
}
static void sym(double &v, const std::string &n) { v = bsx_real(n.c_str(), -1, 1); }
static void sym(C &v, const std::string &n) {
  double a = bsx_real((n + "re").c_str(), -1, 1), b = bsx_real((n + "im").c_str(), -1, 1);
  v = C(a, b);
}
static int rnd_state = 12345;
static double rnd() {
  rnd_state = (rnd_state * 1103 + 12347) % 65536;
  return (rnd_state - 32768) / 32768.;
}
static void gen(double &v) { v = rnd(); }
static void gen(C &v) { v = C(rnd(), rnd()); }

// fills the blocks of H; every block gets generic entries, the blocks numbered
// sy mod st additionally symbolic ones
template <class S>
static void fill(Eigen::H2Matrix<S> &H, int st, int sy, const char *nm) {
  auto &bt = const_cast<GenericMatrix<BlockClusterTree<S>> &>(H.get_block_cluster_tree());
  int n = 0;
  for (int c = 0; c < bt.cols(); ++c)
    for (int r = 0; r < bt.rows(); ++r)
      for (auto it = bt(r, c).lbegin(); it != bt(r, c).lend(); ++it, ++n) {
        Eigen::Matrix<S, -1, -1> F = (*it)->get_leaf().get_F();
        for (int i = 0; i < F.rows(); ++i)
          for (int j = 0; j < F.cols(); ++j)
            if (st > 0 && n % st == sy)
              sym(F(i, j), ora::nm(nm, n, i, j));
            else
              gen(F(i, j));
        (*it)->get_leaf().set_F(F);
      }
}
// the action of the blocks, the clusters' moments computed directly on the
// level of the block
template <class Op, class S>
static Eigen::Matrix<S, -1, 1> oracle(const Eigen::H2Matrix<S> &H, const AnsatzSpace<Op> &as, int npt, const Eigen::Matrix<S, -1, 1> &x) {
  const auto &bt = H.get_block_cluster_tree();
  const ElementTree &et = as.get_superspace().get_mesh().get_element_tree();
  const int N = et.get_number_of_elements(), L = et.get_max_level(), P = as.get_polynomial_degree(), I = (P + 1) * (P + 1), vd = getFunctionSpaceVectorDimension<LinearOperatorTraits<Op>::Form>();
  Eigen::SparseMatrix<double> T = as.get_transformation_matrix();
  std::vector<S> X(vd * N * I, S(0)), Y(vd * N * I, S(0));
  for (int k = 0; k < T.outerSize(); ++k)
    for (Eigen::SparseMatrix<double>::InnerIterator it(T, k); it; ++it) X[it.row()] += it.value() * x(it.col());
  std::vector<std::vector<Eigen::MatrixXd>> mom;
  for (int l = 0; l <= L; ++l) mom.push_back(H2Multipole::Moment2D<H2Multipole::ChebychevRoots, Op>::compute2DMoment(as.get_superspace(), l, L - l, npt));
  int low = 0;
  for (int r = 0; r < vd; ++r)
    for (int c = 0; c < vd; ++c)
      for (auto it = bt(r, c).clbegin(); it != bt(r, c).clend(); ++it) {
        const ElementTreeNode &a = *(*it)->get_cluster1(), &b = *(*it)->get_cluster2();
        // the elements of a cluster are consecutive
        const int ka = a.level_ < 0 ? N : 1 << 2 * (L - a.level_), oa = r * N * I + (a.level_ < 0 ? 0 : a.id_ * ka * I), ob = c * N * I + (b.level_ < 0 ? 0 : b.id_ * ka * I), n = ka * I;
        const auto &F = (*it)->get_leaf().get_F();
        if ((*it)->get_cc() == BlockClusterAdmissibility::Dense) {
          bsx_assert(F.rows() == n && F.cols() == n, "size of an uncompressed block");
          for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) Y[oa + i] += F(i, j) * X[ob + j];
        } else {
          ++low;
          const Eigen::MatrixXd &ma = mom[a.level_][r], &mb = mom[b.level_][c];
          bsx_assert(F.rows() == ma.rows() && F.cols() == mb.rows() && ma.cols() == n && mb.cols() == n, "size of a compressed block");
          std::vector<S> u(F.cols(), S(0)), v(F.rows(), S(0));
          for (int i = 0; i < F.cols(); ++i)
            for (int j = 0; j < n; ++j) u[i] += mb(i, j) * X[ob + j];
          for (int i = 0; i < F.rows(); ++i)
            for (int j = 0; j < F.cols(); ++j) v[i] += F(i, j) * u[j];
          for (int j = 0; j < n; ++j)
            for (int i = 0; i < F.rows(); ++i) Y[oa + j] += ma(i, j) * v[i];
        }
      }
  Eigen::Matrix<S, -1, 1> y = Eigen::Matrix<S, -1, 1>::Zero(T.cols());
  for (int k = 0; k < T.outerSize(); ++k)
    for (Eigen::SparseMatrix<double>::InnerIterator it(T, k); it; ++it) y(it.col()) += it.value() * Y[it.row()];
  return y;
}
static void same(double a, double b, const char *m) { bsx_close(a, b, 1e-8, m); }
static void same(C a, C b, const char *m) {
  bsx_close(a.real(), b.real(), 1e-8, m);
  bsx_close(a.imag(), b.imag(), 1e-8, m);
}
template <class A, class B>
static void samev(const A &a, const B &b, const char *m) {
  bsx_assert(a.rows() == b.rows() && a.cols() == b.cols(), "size of the product");
  for (int j = 0; j < a.cols(); ++j)
    for (int i = 0; i < a.rows(); ++i) same(a(i, j), b(i, j), m);
}
template <class S>
static Eigen::Matrix<S, -1, 1> symv(int n, const char *nm) {
  Eigen::Matrix<S, -1, 1> x(n);
  for (int i = 0; i < n; ++i) sym(x(i), ora::nm(nm, i));
  return x;
}
template <class S>
static Eigen::Matrix<S, -1, 1> genv(int n) {
  Eigen::Matrix<S, -1, 1> x(n);
  for (int i = 0; i < n; ++i) gen(x(i));
  return x;
}
template <class Op, class S>
static void apply(int np, double third, int M, int P, int npt, int st, bool symx) {
  AnsatzSpace<Op> as(surf(np, third), M, P);
  Op op;
  Eigen::H2Matrix<S> H;
  H.init_H2Matrix(op, as, npt);
  const int n = as.get_number_of_dofs();
  bsx_assert(H.rows() == n && H.cols() == n, "size of the matrix");
  fill(H, st, st > 1 ? bsx_choice("blocks", 0, st - 1) : 0, "F");
  Eigen::Matrix<S, -1, 1> x = symx ? symv<S>(n, "x") : genv<S>(n);
  Eigen::Matrix<S, -1, 1> y = H * x;
  samev(y, oracle(H, as, npt, x), "product is the action of the blocks");
}
//! fn=c18_scalar tier=quick bounds="scalar operator, one..three patches, level 0..2, degree 0, 2..3 interpolation points, all block entries and vectors" cost=40
extern "C" void c18_scalar() {
  int np = bsx_choice("np", 1, 3), M = bsx_choice("M", 0, 2), npt = bsx_choice("points", 2, 3);
  if (M < 2 && npt > 2) bsx_stop();
  apply<Sc, double>(np, 6, M, 0, npt, 1, true);
  bsx_cover("end");
}
//! fn=c18_level3 tier=quick bounds="scalar operator, one..two patches, level 3, degree 0, all vectors" cost=40
extern "C" void c18_level3() {
  apply<Sc, double>(bsx_choice("np", 1, 2), 1.5, 3, 0, 2, 0, true);
  bsx_cover("end");
}
//! fn=c18_mixed tier=quick bounds="scalar operator, three patches, level 2, degree 1, blocks on different levels of both kinds, all vectors" cost=40
extern "C" void c18_mixed() {
  apply<Sc, double>(3, 2.5, 2, 1, 3, 0, true);
  bsx_cover("end");
}
//! fn=c18_grad tier=quick bounds="continuous scalar operator with two components per interpolation point, degree 1, level 1 (all block entries) and 2 (all vectors)" cost=40
extern "C" void c18_grad() {
  int M = bsx_choice("M", 1, 2);
  apply<Sg, double>(3, M == 1 ? 6 : 2.5, M, 1, 2, M == 1 ? 1 : 0, M == 2);
  bsx_cover("end");
}
//! fn=c18_vector tier=quick bounds="complex vector valued operator with two components per interpolation point, degree 1, level 1 (all block entries) and 2 (all vectors)" cost=40
extern "C" void c18_vector() {
  int M = bsx_choice("M", 1, 2);
  apply<Ve, C>(3, M == 1 ? 6 : 2.5, M, 1, 2, M == 1 ? 4 : 0, M == 2);
  bsx_cover("end");
}
// lazy combinations
static Eigen::MatrixXd dense(const Eigen::H2Matrix<double> &H) { return H.get_dense(); }
#ifdef DENSEC
static Eigen::MatrixXcd dense(const Eigen::H2Matrix<C> &H) { return H.get_dense(); }
#endif
template <class Op, class S>
static void combo(int np, int M, int P, int lo, int hi) {
  AnsatzSpace<Op> as(surf(np, 6), M, P);
  Op op;
  Eigen::H2Matrix<S> A, B;
  A.init_H2Matrix(op, as, 2);
  B.init_H2Matrix(op, as, 2);
  fill<S>(A, 0, 0, "");
  fill<S>(B, 0, 0, "");
  const int n = as.get_number_of_dofs();
  typedef Eigen::Matrix<S, -1, 1> V;
  typedef Eigen::Matrix<S, -1, -1> Mat;
  V x = symv<S>(n, "x");
  V a = oracle(A, as, 2, x), b = oracle(B, as, 2, x);
  Mat D(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) gen(D(i, j));
  std::vector<Eigen::Triplet<S>> t;
  for (int i = 0; i < n; ++i) {
    S v;
    gen(v);
    t.push_back(Eigen::Triplet<S>(i, i, v));
    t.push_back(Eigen::Triplet<S>((i + 3) % n, i, S(2) * v));
  }
  Eigen::SparseMatrix<S> Sp(n, n);
  Sp.setFromTriplets(t.begin(), t.end());
  V d = D * x, s = V::Zero(n);
  for (auto &q : t) s(q.row()) += q.value() * x(q.col());
  S c;
  gen(c);
  V y;
  const char *m = "combination of the products";
  switch (bsx_choice("what", lo, hi)) {
    case 0: y = (A + B) * x; samev(y, V(a + b), m); break;
    case 1: y = (A - B) * x; samev(y, V(a - b), m); break;
    case 2: y = (c * A) * x; samev(y, V(c * a), m); break;
    case 3: y = (c * A - B) * x; samev(y, V(c * a - b), m); break;
    case 4: y = (A - (B - A)) * x; samev(y, V(a + a - b), m); break;
    case 5: y = (A + D) * x; samev(y, V(a + d), m); break;
    case 6: y = (D - A) * x; samev(y, V(d - a), m); break;
    case 7: y = (A - D + B) * x; samev(y, V(a - d + b), m); break;
    case 8: y = (A + Sp) * x; samev(y, V(a + s), m); break;
    case 9: y = (Sp - A) * x; samev(y, V(s - a), m); break;
    case 10: y = (A - Sp) * x; samev(y, V(a - s), m); break;
    case 11: y = (D + A) * x; samev(y, V(a + d), m); break;
    case 12: y = (A - D) * x; samev(y, V(a - d), m); break;
    case 13: y = (Sp + A) * x; samev(y, V(a + s), m); break;
    case 14: y = (c * (A - B)) * x; samev(y, V(c * (a - b)), m); break;
    case 15: y = x; y += A * x; samev(y, V(x + a), m); break;
    case 16: y = x; y -= B * x; samev(y, V(x - b), m); break;
    case 17: y = x; y.noalias() += c * (A * x); samev(y, V(x + c * a), m); break;
    case 18: y = A * x - B * x; samev(y, V(a - b), m); break;
    case 19: y = A * (c * x + x); samev(y, V(c * a + a), m); break;
    case 20: {
      // several columns, repeated use
      Mat X(n, 3);
      V z = genv<S>(n);
      X.col(0) = z;
      X.col(1) = x;
      X.col(2) = V(z - x);
      Mat Y = A * X;
      V w = oracle(A, as, 2, z);
      samev(V(Y.col(0)), w, m);
      samev(V(Y.col(1)), a, m);
      samev(V(Y.col(2)), V(w - a), m);
      Mat Y2 = (A - B) * X;
      samev(V(Y2.col(1)), V(a - b), m);
      samev(V(A * x), a, m);
      break;
    }
    case 21: {
      // the matrix after the transformation, column by column
      Mat G = dense(A);
      samev(V(G * x), a, "dense copy of the matrix");
      break;
    }
  }
}
//! fn=c18_combo tier=quick bounds="sums, differences, multiples with compressed, dense and sparse matrices, scalar operator, two patches, level 1, all vectors" cost=60
extern "C" void c18_combo() {
  combo<Sc, double>(3, 1, 0, 0, 21);
  bsx_cover("end");
}
