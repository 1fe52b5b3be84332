#include "geo.h"
#include <Bembel/AnsatzSpace>
#include <Bembel/LinearOperator>
using namespace Bembel;

struct Rec;
namespace Bembel {
template <>
struct LinearOperatorTraits<Rec> {
  typedef Eigen::VectorXd EigenType;
  typedef double Scalar;
  enum { OperatorOrder = 0, Form = DifferentialForm::Discontinuous, NumberOfFMMComponents = 1 };
};
}  // namespace Bembel
struct Pair {
  double s1, t1, s2, t2, w;
};
// operator that records the moments or the points it is asked for
struct Rec : LinearOperatorBase<Rec> {
  mutable std::vector<Pair> pts;
  int deg = -1;
  template <class T>
  void evaluateIntegrand_impl(const T &, const SurfacePoint &p1, const SurfacePoint &p2, Eigen::MatrixXd *intval) const {
    bsx_assert(p1(3) == 1 && p2(3) == 2, "points of the first and second element are not exchanged");
    if (deg < 0) {
      pts.push_back(Pair{p1(0), p1(1), p2(0), p2(1), p1(2) * p2(2)});
      return;
    }
    double P[4][16], v[4] = {p1(0), p1(1), p2(0), p2(1)};
    for (int i = 0; i < 4; ++i) {
      P[i][0] = 1;
      for (int j = 1; j <= deg; ++j) P[i][j] = P[i][j - 1] * v[i];
    }
    double w = p1(2) * p2(2);
    int n = 0;
    for (int a = 0; a <= deg; ++a)
      for (int b = 0; a + b <= deg; ++b)
        for (int c = 0; a + b + c <= deg; ++c)
          for (int d = 0; a + b + c + d <= deg; ++d) (*intval)(n++, 0) += w * P[0][a] * P[1][b] * P[2][c] * P[3][d];
  }
};
// stands for the space: records reference point, weight and element
struct Space {
  mutable int calls = 0;
  const ElementTreeNode *e1, *e2;
  void map2surface(const ElementTreeNode &e, const Eigen::Vector2d &xi, double w, SurfacePoint *p) const {
    p->setZero();
    (*p)(0) = xi(0);
    (*p)(1) = xi(1);
    (*p)(2) = w;
    (*p)(3) = std::addressof(e) == e1 ? 1 : 2;
    if (e1 == e2) (*p)(3) = 0;
    ++calls;
  }
  int get_polynomial_degree() const { return 1; }
};
// for identical elements the order of the points does not matter
struct RecSame;
namespace Bembel {
template <>
struct LinearOperatorTraits<RecSame> : LinearOperatorTraits<Rec> {};
}  // namespace Bembel
struct RecSame : LinearOperatorBase<RecSame> {
  Rec r;
  template <class T>
  void evaluateIntegrand_impl(const T &s, const SurfacePoint &p1, const SurfacePoint &p2, Eigen::MatrixXd *intval) const {
    SurfacePoint q1 = p1, q2 = p2;
    q1(3) = 1;
    q2(3) = 2;
    r.evaluateIntegrand_impl(s, q1, q2, intval);
  }
};
static Cubature product(int n) {
  GaussSquare<12> GS;
  return GS[n - 1];
}
static const int NCASE = 5;
template <class Op>
static void call(int kind, const Op &op, const Space &sp, const ElementTreeNode &e1, int r1, const ElementTreeNode &e2, int r2, const Cubature &Q, Eigen::MatrixXd *m) {
  ElementSurfacePoints f1(Q.w_.size()), f2(Q.w_.size());
  for (int i = 0; i < Q.w_.size(); ++i) {
    sp.map2surface(e1, Q.xi_.col(i), e1.get_h() * Q.w_(i), &f1[i]);
    sp.map2surface(e2, Q.xi_.col(i), e1.get_h() * Q.w_(i), &f2[i]);
  }
  switch (kind) {
    case 0: DuffyTrick::integrate0(op, sp, e1, r1, e2, r2, f1, f2, Q, m); break;
    case 1: DuffyTrick::integrate1(op, sp, e1, r1, e2, r2, f1, f2, Q, m); break;
    case 2: DuffyTrick::integrate2(op, sp, e1, r1, e2, r2, f1, f2, Q, m); break;
    case 3: DuffyTrick::integrate3(op, sp, e1, r1, e2, r2, f1, f2, Q, m); break;
    default: DuffyTrick::integrate4(op, sp, e1, r1, e2, r2, f1, f2, Q, m);
  }
}
// every polynomial with coefficients in [-1,1]
static void exactness(const Eigen::MatrixXd &m, int deg, double h2) {
  int n = 0;
  double q = 0, e = 0;
  for (int a = 0; a <= deg; ++a)
    for (int b = 0; a + b <= deg; ++b)
      for (int c = 0; a + b + c <= deg; ++c)
        for (int d = 0; a + b + c + d <= deg; ++d) {
          double x = bsx_real(ora::nm("c", n).c_str(), -1, 1);
          q += x * m(n, 0);
          e += x * (h2 / ((a + 1.) * (b + 1.) * (c + 1.) * (d + 1.)));
          ++n;
        }
  bsx_close(q, e, 1e-11, "quadrature over the element pair is exact for polynomials");
}
static int count(int deg) { return (deg + 1) * (deg + 2) * (deg + 3) * (deg + 4) / 24; }
static void exact(int kind, int deg, int n) {
  ElementTreeNode e1, e2;
  e1.level_ = e2.level_ = bsx_choice("level", 0, 2);
  int r1 = kind >= 3 ? bsx_choice("rot1", 0, 3) : 0, r2 = kind >= 3 ? bsx_choice("rot2", 0, 3) : 0;
  Space sp;
  sp.e1 = &e1;
  sp.e2 = kind == 2 ? &e1 : &e2;
  Eigen::MatrixXd m = Eigen::MatrixXd::Constant(count(deg), 1, 7);  // earlier contents are discarded
  if (kind == 2) {
    RecSame op;
    op.r.deg = deg;
    call(kind, op, sp, e1, r1, e1, r2, product(n), &m);
  } else {
    Rec op;
    op.deg = deg;
    call(kind, op, sp, e1, r1, e2, r2, product(n), &m);
  }
  double h = e1.get_h();
  exactness(m, deg, h * h);
  bsx_cover("end");
}
//! fn=c11_exact tier=quick bounds="every polynomial of total degree 4 in the four reference coordinates, five kinds of pairs, all 16 alignments, level 0..2, 4x4 points" cost=60
extern "C" void c11_exact() { exact(bsx_choice("kind", 0, 4), 4, 4); }
//! fn=c11_exact_deep tier=thorough bounds="every polynomial of total degree 6, five kinds of pairs, all 16 alignments, level 0..2, 5x5 points" cost=60 time=800
extern "C" void c11_exact_deep() { exact(bsx_choice("kind", 0, 4), 6, 5); }

static double mx(double a, double b) { return a > b ? a : b; }
// one symbolic pair of quadrature points: where and with which weight is the
// integrand evaluated
static void points(int kind) {
  ElementTreeNode e1, e2;
  e1.level_ = e2.level_ = 0;
  int r1 = kind >= 3 ? bsx_choice("rot1", 0, 3) : 0, r2 = kind >= 3 ? bsx_choice("rot2", 0, 3) : 0;
  Space sp;
  sp.e1 = &e1;
  sp.e2 = kind == 2 ? &e1 : &e2;
  Cubature Q;
  Q.xi_.resize(2, 2);
  Q.w_.resize(2);
  for (int j = 0; j < 2; ++j) {
    Q.w_(j) = 1;
    for (int i = 0; i < 2; ++i) Q.xi_(i, j) = bsx_real(ora::nm("q", i, j).c_str(), 0, 1);
  }
  Eigen::MatrixXd m(1, 1);
  std::vector<Pair> P;
  if (kind == 2) {
    RecSame op;
    call(kind, op, sp, e1, r1, e1, r2, Q, &m);
    P = op.r.pts;
  } else {
    Rec op;
    call(kind, op, sp, e1, r1, e2, r2, Q, &m);
    P = op.pts;
  }
  bsx_assert(P.size() >= 4 && P.size() % 4 == 0, "number of point pairs");
  int per = P.size() / 4;
  int lo = per, hi = 2 * per;  // first point outside, second point inside
  for (int k = lo; k < hi; ++k) {
    const Pair &p = P[k];
    bsx_assert((p.s1 >= 0) & (p.s1 <= 1) & (p.t1 >= 0) & (p.t1 <= 1), "points lie in the first element");
    bsx_assert((p.s2 >= 0) & (p.s2 <= 1) & (p.t2 >= 0) & (p.t2 <= 1), "points lie in the second element");
    bsx_assert(p.w >= 0, "weights are not negative");
    if (kind < 2) continue;
    // undo the rotations
    Eigen::Vector2d a = DuffyTrick::tau(p.s1, p.t1, (4 - r1) % 4), b = DuffyTrick::tau(p.s2, p.t2, (4 - r2) % 4);
    double dx, dy;
    if (kind == 2) {
      dx = a(0) - b(0);
      dy = a(1) - b(1);
    } else if (kind == 3) {
      // glued along the first edge in opposite directions
      dx = a(0) - (1 - b(0));
      dy = a(1) + b(1);
    } else {
      // glued in the origin
      dx = a(0) + b(0);
      dy = a(1) + b(1);
    }
    // 2 max(|dx|, |dy|) >= w
    bsx_assert((2 * dx >= p.w) | (-2 * dx >= p.w) | (2 * dy >= p.w) | (-2 * dy >= p.w), "weights vanish where the elements meet");
  }
  bsx_cover("end");
}
//! fn=c11_points tier=quick bounds="every position of the quadrature points, five kinds of pairs, all 16 alignments" cost=60
extern "C" void c11_points() { points(bsx_choice("kind", 0, 4)); }

// the assembly routine picks the rule and the alignment belonging to the pair
static Eigen::Vector3d at(const ElementTreeNode &e, const std::vector<Patch> &pv, int j) {
  double h = e.get_h();
  return pv[e.patch_].eval(e.llc_(0) + h * CX[j], e.llc_(1) + h * CY[j]);
}
//! fn=c11_dispatch tier=quick bounds="all element pairs of two patches meeting in an edge or a vertex in all 16 orientations, level 0..1, every polynomial of total degree 2" cost=60
extern "C" void c11_dispatch() {
  bool edge = bsx_choice("edge", 0, 1);
  int j = bsx_choice("first", 0, 3), k = bsx_choice("second", 0, 3), level = bsx_choice("level", 0, 1);
  Eigen::Vector3d c[4], d[4];
  for (int i = 0; i < 4; ++i) {
    c[i] = Eigen::Vector3d(CX[i] * 2, CY[i] * 1.5, CX[i] * CY[i]);
    d[i] = Eigen::Vector3d(5 + CX[i], 7 - CY[i] + .5 * CX[i], 1 + CX[i]);
  }
  d[k] = edge ? c[(j + 1) % 4] : c[j];
  if (edge) d[(k + 1) % 4] = c[j];
  std::vector<Patch> pv{quad(c), quad(d)};
  Geometry geo(pv);
  ClusterTree ct(geo, level);
  ElementTree &t = ct.get_element_tree();
  GaussSquare<12> GS;
  int a = bsx_choice("e1", 0, 2 * (1 << 2 * level) - 1);
  auto pa = t.pbegin();
  for (int i = 0; i < a; ++i) ++pa;
  const ElementTreeNode &e1 = *pa;
  for (auto b = t.pbegin(); b != t.pend(); ++b) {
    const ElementTreeNode &e2 = *b;
    const bool same = std::addressof(e1) == std::addressof(e2);
    Space sp;
    sp.e1 = std::addressof(e1);
    sp.e2 = std::addressof(e2);
    // oracle
    int n = 0, pi[16], pj[16], kind = 1, r1 = 0, r2 = 0;
    for (int p = 0; p < 4; ++p)
      for (int q = 0; q < 4; ++q)
        if ((at(e1, pv, p) - at(e2, pv, q)).norm() < 1e-6) {
          pi[n] = p;
          pj[n++] = q;
        }
    if (same) {
      kind = 2;
    } else if (n == 1) {
      kind = 4;
      r1 = pi[0];
      r2 = pj[0];
    } else if (n == 2) {
      kind = 3;
      int s = pi[1] == (pi[0] + 1) % 4 ? 0 : 1;
      r1 = pi[s];
      r2 = pj[1 - s];
    }
    double dist = (e1.midpoint_ - e2.midpoint_).norm() - e1.radius_ - e2.radius_;
    if (dist < 0) dist = 0;
    const int P = sp.get_polynomial_degree(), ff = LinearOperatorBase<Rec>().get_FarfieldQuadratureDegree(P);
    int deg = LinearOperatorBase<Rec>().getNearfieldQuadratureDegree(P, dist, level);
    if (deg < ff) deg = ff;
    bsx_assert(deg < 12, "quadrature degree of the example");
    const Cubature &Qf = GS[ff], &Q = GS[deg];
    ElementSurfacePoints f1(Qf.w_.size()), f2(Qf.w_.size());
    for (int i = 0; i < Qf.w_.size(); ++i) {
      sp.map2surface(e1, Qf.xi_.col(i), e1.get_h() * Qf.w_(i), &f1[i]);
      sp.map2surface(e2, Qf.xi_.col(i), e1.get_h() * Qf.w_(i), &f2[i]);
    }
    Eigen::MatrixXd m(count(2), 1), u(1, 1);
    if (same) {
      RecSame op;
      op.r.deg = 2;
      DuffyTrick::evaluateBilinearForm(op, sp, e1, e2, GS, f1, f2, &m);
    } else {
      Rec op, rec, want;
      op.deg = 2;
      DuffyTrick::evaluateBilinearForm(op, sp, e1, e2, GS, f1, f2, &m);
      DuffyTrick::evaluateBilinearForm(rec, sp, e1, e2, GS, f1, f2, &u);
      call(kind, want, sp, e1, r1, e2, r2, Q, &u);
      bsx_assert(rec.pts.size() == want.pts.size(), "rule of the element pair");
      for (size_t i = 0; i < want.pts.size(); ++i) {
        const Pair &x = rec.pts[i], &y = want.pts[i];
        bsx_assert(std::fabs(x.s1 - y.s1) + std::fabs(x.t1 - y.t1) + std::fabs(x.s2 - y.s2) + std::fabs(x.t2 - y.t2) + std::fabs(x.w - y.w) < 1e-13, "points are aligned with the common edge or vertex");
      }
    }
    double h = e1.get_h();
    double s = 0, e = 0;
    int q = 0;
    for (int i0 = 0; i0 <= 2; ++i0)
      for (int i1 = 0; i0 + i1 <= 2; ++i1)
        for (int i2 = 0; i0 + i1 + i2 <= 2; ++i2)
          for (int i3 = 0; i0 + i1 + i2 + i3 <= 2; ++i3, ++q) {
            double x = bsx_real(ora::nm("c", e2.id_, q).c_str(), -1, 1);
            s += x * m(q, 0);
            e += x * (h * h / ((i0 + 1.) * (i1 + 1.) * (i2 + 1.) * (i3 + 1.)));
          }
    bsx_close(s, e, 1e-11, "pair quadrature is exact for polynomials");
  }
  bsx_cover("end");
}
