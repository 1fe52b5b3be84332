#include "bspl.h"
#include <Bembel/Geometry>
using namespace Bembel;
typedef Eigen::Matrix<double, -1, -1> Mat;

// B-spline surface in homogeneous coordinates: rows of the control point grids
// belong to the second direction, columns to the first
struct Sf {
  Kn kx, ky;
  std::vector<Mat> c;
};
static Kn cfg(int p, int which) {
  switch (which) {
    case 0: return make(p, {}, false, "");
    case 1: return make(p, {1}, false, "");
    case 2: return make(p, {std::min(2, p)}, false, "");
    default: return make(p, {1, 1}, false, "");
  }
}
static Sf surface(int px, int py, int cx, int cy, bool unitw) {
  Sf s;
  s.kx = cfg(px, cx);
  s.ky = cfg(py, cy);
  s.c.assign(4, Mat(s.ky.n, s.kx.n));
  for (int k = 0; k < 4; ++k)
    for (int i = 0; i < s.kx.n; ++i)
      for (int j = 0; j < s.ky.n; ++j)
        s.c[k](j, i) = k == 3 ? (unitw ? 1. : bsx_real(ora::nm("w", i, j).c_str(), 0.125, 8)) : bsx_real(ora::nm("c", i, j, k).c_str(), -4, 4);
  return s;
}
static void homog(const Sf &s, double u, double v, int su, int sv, double *X) {
  for (int k = 0; k < 4; ++k) X[k] = 0;
  for (int i = 0; i < s.kx.n; ++i)
    for (int j = 0; j < s.ky.n; ++j) {
      double b = N(s.kx, i, s.kx.p, u, su) * N(s.ky, j, s.ky.p, v, sv);
      for (int k = 0; k < 4; ++k) X[k] += s.c[k](j, i) * b;
    }
}
// the patch built from control points and knots carries the same surface:
// homogeneous Bezier polynomials on every element equal the spline
static void build(int pm, int cm, bool diffOnly) {
  int px = bsx_choice("px", 1, pm), py = bsx_choice("py", 1, pm), cx = bsx_choice("cx", 0, cm), cy = bsx_choice("cy", 0, cm);
  if (cx + cy > 4 || (cx == 3 && py > 2 && px > 2)) bsx_stop();
  (void)diffOnly;
  Sf s = surface(px, py, cx, cy, false);
  Patch P(s.c, s.kx.t, s.ky.t);
  bsx_assert(P.polynomial_degree_x_ == px + 1 && P.polynomial_degree_y_ == py + 1, "degrees");
  bsx_assert(P.unique_knots_x_ == s.kx.u && P.unique_knots_y_ == s.ky.u, "distinct knots");
  const int ex = (int)s.kx.u.size() - 1, ey = (int)s.ky.u.size() - 1;
  bsx_assert((int)P.data_.size() == 4 * ex * (px + 1) * ey * (py + 1), "number of control points");
  int ax = bsx_choice("ex", 0, ex - 1), ay = bsx_choice("ey", 0, ey - 1);
  double a = bsx_real("s", 0, 1), b = bsx_real("t", 0, 1);
  double u = s.kx.u[ax] + a * (s.kx.u[ax + 1] - s.kx.u[ax]), v = s.ky.u[ay] + b * (s.ky.u[ay + 1] - s.ky.u[ay]);
  double X[4], Y[4] = {0, 0, 0, 0};
  homog(s, u, v, s.kx.last[ax], s.ky.last[ay], X);
  for (int i = 0; i <= px; ++i)
    for (int j = 0; j <= py; ++j)
      for (int k = 0; k < 4; ++k)
        Y[k] += P.data_[4 * (ey * (py + 1) * (ax * (px + 1) + i) + ay * (py + 1) + j) + k] * (ora::bern(px, i, a) * ora::bern(py, j, b));
  for (int k = 0; k < 4; ++k) bsx_close(Y[k], X[k], 1e-9, "homogeneous Bezier form equals the spline surface");
  bsx_cover("end");
}
//! fn=c05_build tier=quick bounds="degrees 1..2 per direction (equal and unequal), knot vectors {none, one simple, one double, two simple} interior knots per direction, all control points and weights, all points of every element" cost=30
extern "C" void c05_build() { build(2, 3, false); }
//! fn=c05_build_deep tier=thorough bounds="degrees 1..4 per direction, knot vectors as above"
extern "C" void c05_build_deep() { build(4, 3, false); }

// evaluation at fixed points: all control points, unequal weights
static void eval(int pm) {
  int px = bsx_choice("px", 1, pm), py = bsx_choice("py", 1, pm), cx = bsx_choice("cx", 0, 2), cy = bsx_choice("cy", 0, 2);
  Sf s = surface(px, py, cx, cy, true);
  for (int i = 0; i < s.kx.n; ++i)
    for (int j = 0; j < s.ky.n; ++j) {
      s.c[3](j, i) = 1 + 0.25 * ((3 * i + 5 * j) % 7);
      for (int k = 0; k < 3; ++k) s.c[k](j, i) *= s.c[3](j, i);
    }
  Patch P(s.c, s.kx.t, s.ky.t);
  const double g[] = {0, 0.0625, 0.25, 0.5, 0.8125, 1};
  for (int a = 0; a < 6; ++a)
    for (int b = 0; b < 6; ++b) {
      double u = g[a], v = g[b];
      int su = 0, sv = 0;
      for (size_t e = 0; e + 1 < s.kx.u.size(); ++e)
        if (u >= s.kx.u[e]) su = s.kx.last[e];
      for (size_t e = 0; e + 1 < s.ky.u.size(); ++e)
        if (v >= s.ky.u[e]) sv = s.ky.last[e];
      double X[4];
      homog(s, u, v, su, sv, X);
      Eigen::Vector3d x = P.eval(u, v);
      for (int k = 0; k < 3; ++k) bsx_close(x(k), X[k] / X[3], 1e-9, "evaluated point lies on the spline surface");
    }
  bsx_cover("end");
}
//! fn=c05_eval tier=quick bounds="degrees 1..3, up to two elements per direction, all control points, fixed unequal weights, 36 parameter points incl. knots and corners"
extern "C" void c05_eval() { eval(3); }

// cutting a multi-element patch
static Patch multi(int px, int py, int ex, int ey) {
  Patch P;
  P.polynomial_degree_x_ = px + 1;
  P.polynomial_degree_y_ = py + 1;
  const double k2[] = {0, 0.25, 1}, k3[] = {0, 0.25, 0.75, 1}, k1[] = {0, 1};
  const double *kk[] = {k1, k1, k2, k3};
  P.unique_knots_x_ = DV(kk[ex], kk[ex] + ex + 1);
  P.unique_knots_y_ = DV(kk[ey], kk[ey] + ey + 1);
  int n = (px + 1) * ex * (py + 1) * ey;
  for (int i = 0; i < n; ++i) {
    for (int k = 0; k < 3; ++k) P.data_.push_back(bsx_real(ora::nm("c", i, k).c_str(), -4, 4));
    P.data_.push_back(bsx_real(ora::nm("w", i).c_str(), 0.125, 8));
  }
  return P;
}
static void piece(const Patch &P, const Patch &Q, int ix, int iy) {
  const DV &kx = P.unique_knots_x_, &ky = P.unique_knots_y_;
  bsx_assert(Q.unique_knots_x_.size() == 2 && Q.unique_knots_y_.size() == 2 && Q.unique_knots_x_[0] == 0 && Q.unique_knots_x_[1] == 1 && Q.unique_knots_y_[0] == 0 && Q.unique_knots_y_[1] == 1, "pieces are single elements");
  double hx = kx[ix + 1] - kx[ix], hy = ky[iy + 1] - ky[iy];
  double s = bsx_real("s", 0, 1), t = bsx_real("t", 0, 1);
  bsx_assume((s > 0.0001220703125) & (s < 1) & (t > 0.0001220703125) & (t < 1));
  double u = kx[ix] + s * hx, v = ky[iy] + t * hy;
  Eigen::Vector3d x = P.eval(u, v), y = Q.eval(s, t);
  Eigen::Matrix<double, 3, 2> J = P.evalJacobian(u, v), K = Q.evalJacobian(s, t);
  for (int k = 0; k < 3; ++k) {
    bsx_equal(y(k), x(k), "piece and original agree");
    bsx_equal(K(k, 0), hx * J(k, 0), "first tangents agree up to the element length");
    bsx_equal(K(k, 1), hy * J(k, 1), "second tangents agree up to the element length");
  }
}
//! fn=c05_shred tier=quick bounds="1..3 x 1..2 elements (non-uniform), degrees 1..2 per direction, all control points, weights and interior points of every piece"
static void shred(int pm) {
  int ex = bsx_choice("nx", 1, 3), ey = bsx_choice("ny", 1, 2), px = bsx_choice("px", 1, pm), py = bsx_choice("py", 1, pm);
  Patch P = multi(px, py, ex, ey);
  std::vector<Patch> out = PatchShredder(P);
  bsx_assert((int)out.size() == ex * ey, "number of pieces");
  if ((int)out.size() != ex * ey) return;
  int ix = bsx_choice("ix", 0, ex - 1), iy = bsx_choice("iy", 0, ey - 1);
  piece(P, out[ix * ey + iy], ix, iy);
  bsx_cover("end");
}
extern "C" void c05_shred() { shred(2); }
//! fn=c05_shred_deep tier=thorough bounds="as c05_shred with degrees 1..3"
extern "C" void c05_shred_deep() { shred(3); }
//! fn=c05_list tier=quick bounds="list of three patches with 1, 2x2 and 1x2 elements, all control points and weights"
extern "C" void c05_list() {
  std::vector<Patch> in(3);
  auto geo = [](Patch P, double o) {
    for (size_t i = 0; i < P.data_.size(); ++i) P.data_[i] += i % 4 == 3 ? 0 : o;
    return P;
  };
  in[0] = geo(multi(1, 1, 1, 1), 0);
  in[1] = geo(multi(1, 1, 2, 2), 1);
  in[2] = geo(multi(1, 1, 1, 2), 2);
  std::vector<Patch> out = PatchShredder(in);
  bsx_assert(out.size() == 7, "number of pieces");
  if (out.size() != 7) return;
  int k = bsx_choice("k", 0, 6);
  const int pa[] = {0, 1, 1, 1, 1, 2, 2}, ix[] = {0, 0, 0, 1, 1, 0, 0}, iy[] = {0, 0, 1, 0, 1, 0, 1};
  piece(in[pa[k]], out[k], ix[k], iy[k]);
  Geometry g(out);
  bsx_assert(g.get_number_of_patches() == 7 && g.get_geometry().size() == 7, "number of patches of the geometry");
  bool same = true;
  for (int i = 0; i < 7; ++i) same &= g.get_geometry()[i].data_.size() == out[i].data_.size();
  bsx_assert(same, "geometry stores the pieces");
  for (size_t i = 0; i < out[k].data_.size(); ++i) bsx_equal(g.get_geometry()[k].data_[i], out[k].data_[i], "geometry stores the control points");
  bsx_cover("end");
}
