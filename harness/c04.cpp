#include "common.h"
#include <Bembel/Geometry>
using namespace Bembel;
typedef std::vector<double> DV;

// patch in Bezier form with symbolic homogeneous control points
struct Pt {
  int px, py, ex, ey;  // degrees, elements
  Patch P;
  const double &d(int gx, int gy, int k) const { return P.data_[4 * (ey * (py + 1) * gx + gy) + k]; }
};
static DV knots(int e) {
  // non-uniform, dyadic
  if (e == 1) return {0, 1};
  if (e == 2) return {0, 0.25, 1};
  return {0, 0.25, 0.75, 1};
}
static Pt make(int px, int py, int ex, int ey) {
  Pt p;
  p.px = px, p.py = py, p.ex = ex, p.ey = ey;
  p.P.polynomial_degree_x_ = px + 1;
  p.P.polynomial_degree_y_ = py + 1;
  p.P.unique_knots_x_ = knots(ex);
  p.P.unique_knots_y_ = knots(ey);
  int n = (px + 1) * ex * (py + 1) * ey;
  for (int i = 0; i < n; ++i) {
    for (int k = 0; k < 3; ++k) p.P.data_.push_back(bsx_real(ora::nm("c", i, k).c_str(), -10, 10));
    p.P.data_.push_back(bsx_real(ora::nm("w", i).c_str(), 0.125, 8));
  }
  return p;
}
struct Ref {
  double X[4], Dx[4], Dy[4];
};
// homogeneous polynomial and its parameter derivatives at the global point
static Ref ref(const Pt &p, int ax, int ay, double u, double v) {
  Ref r;
  const DV &kx = p.P.unique_knots_x_, &ky = p.P.unique_knots_y_;
  double hx = kx[ax + 1] - kx[ax], hy = ky[ay + 1] - ky[ay];
  double s = (u - kx[ax]) / hx, t = (v - ky[ay]) / hy;
  for (int k = 0; k < 4; ++k) {
    r.X[k] = r.Dx[k] = r.Dy[k] = 0;
    for (int i = 0; i <= p.px; ++i)
      for (int j = 0; j <= p.py; ++j) {
        double c = p.d(ax * (p.px + 1) + i, ay * (p.py + 1) + j, k);
        r.X[k] += c * (ora::bern(p.px, i, s) * ora::bern(p.py, j, t));
        r.Dx[k] += c * (ora::dbern(p.px, i, s) * ora::bern(p.py, j, t)) / hx;
        r.Dy[k] += c * (ora::bern(p.px, i, s) * ora::dbern(p.py, j, t)) / hy;
      }
  }
  return r;
}
static double coord(const DV &k, int e, const char *name) {
  double x = bsx_real(name, 0, 1);
  if (e == (int)k.size() - 2)
    bsx_assume((x >= k[e]) & (x <= 1));
  else
    bsx_assume((x >= k[e]) & (x < k[e + 1]));
  return x;
}
static void check(int px, int py, int ex, int ey) {
  Pt p = make(px, py, ex, ey);
  int ax = bsx_choice("ex", 0, ex - 1), ay = bsx_choice("ey", 0, ey - 1);
  double u = coord(p.P.unique_knots_x_, ax, "u"), v = coord(p.P.unique_knots_y_, ay, "v");
  Ref r = ref(p, ax, ay, u, v);
  // values times weight, tangents times weight squared
  double x[3], tx[3], ty[3];
  for (int k = 0; k < 3; ++k) {
    x[k] = r.X[k] / r.X[3];
    tx[k] = (r.Dx[k] * r.X[3] - r.X[k] * r.Dx[3]) / (r.X[3] * r.X[3]);
    ty[k] = (r.Dy[k] * r.X[3] - r.X[k] * r.Dy[3]) / (r.X[3] * r.X[3]);
  }
  Eigen::Vector2d uv(u, v);
  Eigen::Vector3d e1 = p.P.eval(uv), e2 = p.P.eval(u, v);
  Eigen::Matrix<double, 3, 2> j1 = p.P.evalJacobian(uv), j2 = p.P.evalJacobian(u, v);
  Eigen::Vector3d n1 = p.P.evalNormal(uv), n2 = p.P.evalNormal(u, v);
  double w = bsx_real("qw", -2, 2), xi0 = bsx_real("xi0", 0, 1), xi1 = bsx_real("xi1", 0, 1);
  SurfacePoint sp;
  p.P.updateSurfacePoint(&sp, uv, w, Eigen::Vector2d(xi0, xi1));
  for (int k = 0; k < 3; ++k) {
    bsx_equal(e1(k), x[k], "point is the NURBS quotient");
    bsx_equal(e2(k), x[k], "point (two coordinates)");
    bsx_equal(j1(k, 0), tx[k], "first tangent is the derivative in the first direction");
    bsx_equal(j1(k, 1), ty[k], "second tangent is the derivative in the second direction");
    bsx_equal(j2(k, 0), tx[k], "first tangent (two coordinates)");
    bsx_equal(j2(k, 1), ty[k], "second tangent (two coordinates)");
    int a = (k + 1) % 3, b = (k + 2) % 3;
    bsx_equal(n1(k), j1(a, 0) * j1(b, 1) - j1(b, 0) * j1(a, 1), "normal is the cross product of the tangents");
    bsx_equal(n2(k), n1(k), "normal (two coordinates)");
    bsx_equal(sp(3 + k), x[k], "surface point: position");
    bsx_equal(sp(6 + k), tx[k], "surface point: first tangent");
    bsx_equal(sp(9 + k), ty[k], "surface point: second tangent");
  }
  bsx_equal(sp(0), xi0, "surface point: reference coordinate");
  bsx_equal(sp(1), xi1, "surface point: reference coordinate");
  bsx_equal(sp(2), w, "surface point: weight");
  bsx_cover("end");
}
//! fn=c04_single tier=quick bounds="one element, degrees 1..3 x 1..2 and 1..2 x 3, all points, control points and weights in [1/8,8]"
extern "C" void c04_single() {
  int px = bsx_choice("px", 1, 3), py = bsx_choice("py", 1, 3);
  if (px + py > 5) bsx_stop();
  check(px, py, 1, 1);
}
//! fn=c04_multi tier=quick bounds="1..3 x 1..2 elements with non-uniform knots, degrees 1..2 in each direction"
extern "C" void c04_multi() {
  int ex = bsx_choice("nx", 1, 3), ey = bsx_choice("ny", 1, 2), px = bsx_choice("px", 1, 2), py = bsx_choice("py", 1, 2);
  check(px, py, ex, ey);
}
//! fn=c04_deep tier=thorough bounds="one element, degrees 1..4 in each direction"
extern "C" void c04_deep() {
  int px = bsx_choice("px", 1, 4), py = bsx_choice("py", 1, 4);
  check(px, py, 1, 1);
}
