#include "bspl.h"
#include <Bembel/Spline>
using namespace Bembel;
typedef Eigen::Matrix<double, -1, -1> Mat;

static std::vector<std::vector<int>> config(int p) {
  std::vector<std::vector<int>> r;
  r.push_back({});
  r.push_back({1});
  if (p > 1) r.push_back({p});
  r.push_back({1, p});
  if (p > 2) r.push_back({2, 1});
  r.push_back({1, 1, 1});
  return r;
}
static Kn pick(int p, bool symbolic, const char *name) {
  auto c = config(p);
  int i = bsx_choice((std::string(name) + "_cfg").c_str(), 0, (int)c.size() - 1);
  return make(p, c[i], symbolic, name);
}

static void oned(int p, bool symbolic) {
  Kn k = pick(p, symbolic, "k");
  int s, s2;
  double x = point(k, "x", s);
  DV xs;
  xs.push_back(x);
  xs.push_back(0.);
  xs.push_back(1.);
  Mat c(2, k.n);
  DV cv(k.n);
  for (int j = 0; j < k.n; ++j) {
    c(0, j) = bsx_real(ora::nm("a", j).c_str(), -4, 4);
    c(1, j) = bsx_real(ora::nm("b", j).c_str(), -4, 4);
    cv[j] = c(0, j);
  }
  double v[2] = {0, 0}, d[2] = {0, 0};
  for (int j = 0; j < k.n; ++j) {
    double b = N(k, j, p, x, s), db = dN(k, j, p, x, s);
    for (int r = 0; r < 2; ++r) {
      v[r] += b * c(r, j);
      d[r] += db * c(r, j);
    }
  }
  Mat o = Spl::DeBoor(c, k.t, xs);
  bsx_assert((o.rows() == 2) & (o.cols() == 3), "shape of the result");
  DV o1 = Spl::DeBoor(cv, k.t, xs);
  std::vector<Mat> cc(2);
  cc[0] = c;
  cc[1] = 2 * c;
  std::vector<Mat> o2 = Spl::DeBoor(cc, k.t, xs);
  for (int r = 0; r < 2; ++r) {
    bsx_close(o(r, 0), v[r], 1e-9, "spline value");
    bsx_close(o2[0](r, 0), v[r], 1e-9, "spline value (list)");
    bsx_close(o2[1](r, 0), 2 * v[r], 1e-9, "spline value (list, second)");
    bsx_equal(o(r, 1), c(r, 0), "value at the left end");
    bsx_equal(o(r, 2), c(r, k.n - 1), "value at the right end");
  }
  bsx_close(o1[0], v[0], 1e-9, "spline value (vector)");
  bsx_equal(o1[1], cv[0], "vector, left end");
  bsx_equal(o1[2], cv[k.n - 1], "vector, right end");
  if (p > 0) {
    Mat g = Spl::DeBoorDer(c, k.t, xs);
    std::vector<Mat> g2 = Spl::DeBoorDer(cc, k.t, xs);
    std::vector<Mat> gd = Spl::deBoorDerGiveData(cc, k.t);
    DV tk(k.t.begin() + 1, k.t.end() - 1);
    std::vector<Mat> g3 = Spl::DeBoor(gd, tk, xs);
    for (int r = 0; r < 2; ++r) {
      bsx_close(g(r, 0), d[r], 1e-9, "derivative");
      bsx_close(g2[0](r, 0), d[r], 1e-9, "derivative (list)");
      bsx_close(g2[1](r, 0), 2 * d[r], 1e-9, "derivative (list, second)");
      bsx_close(g3[1](r, 0), 2 * d[r], 1e-9, "derivative from derivative coefficients");
      bsx_close(g(r, 1), p / (k.t[p + 1]) * (c(r, 1) - c(r, 0)), 1e-9, "derivative at the left end");
      bsx_close(g(r, 2), p / (1 - k.t[k.n - 1]) * (c(r, k.n - 1) - c(r, k.n - 2)), 1e-9, "derivative at the right end");
    }
  }
  bsx_cover("end");
}
//! fn=c02_fixed tier=quick bounds="degrees 0..5, six families of interior multiplicities (1..p) at fixed knots, every real x in [0,1], coefficients in [-4,4]"
extern "C" void c02_fixed() { oned(bsx_choice("p", 0, 5), false); }
//! fn=c02_knots tier=quick bounds="degrees 1..3, up to 3 interior knots at every real position (spacing >= 1/16), every real x, coefficients in [-4,4]"
extern "C" void c02_knots() { oned(bsx_choice("p", 1, 3), true); }
//! fn=c02_knots_deep tier=thorough bounds="degrees 4..5, interior knots at every real position" at=60000
extern "C" void c02_knots_deep() { oned(bsx_choice("p", 4, 5), true); }

static void tp(int px, int py) {
  // different knot vectors in the two directions
  Kn kx = make(px, bsx_choice("cx", 0, 1) ? std::vector<int>{1, px > 1 ? px - 1 : 1} : std::vector<int>{}, false, "kx");
  Kn ky = make(py, bsx_choice("cy", 0, 1) ? std::vector<int>{py} : std::vector<int>{}, false, "ky");
  int sx, sy;
  double x = point(kx, "x", sx), y = point(ky, "y", sy);
  DV xs, ys;
  xs.push_back(x);
  ys.push_back(1.);
  ys.push_back(y);
  ys.push_back(0.);
  Mat c(ky.n, kx.n);
  for (int i = 0; i < ky.n; ++i)
    for (int j = 0; j < kx.n; ++j) c(i, j) = bsx_real(ora::nm("c", i, j).c_str(), -4, 4);
  std::vector<Mat> cc(2);
  cc[0] = c;
  cc[1] = -3 * c;
  double e[2][2] = {{0, 0}, {0, 0}};
  for (int i = 0; i < ky.n; ++i)
    for (int j = 0; j < kx.n; ++j) {
      double bx[2] = {N(kx, j, px, x, sx), dN(kx, j, px, x, sx)}, by[2] = {N(ky, i, py, y, sy), dN(ky, i, py, y, sy)};
      for (int a = 0; a < 2; ++a)
        for (int b = 0; b < 2; ++b) e[a][b] += c(i, j) * bx[a] * by[b];
    }
  Mat o = Spl::DeBoorTP(c, kx.t, ky.t, xs, ys);
  std::vector<Mat> o2 = Spl::DeBoorTP(cc, kx.t, ky.t, xs, ys);
  bsx_assert((o.rows() == 1) & (o.cols() == 3), "shape: x along rows, y along columns");
  bsx_close(o(0, 1), e[0][0], 1e-8, "tensor product value");
  bsx_close(o2[0](0, 1), e[0][0], 1e-8, "tensor product value (list)");
  bsx_close(o2[1](0, 1), -3 * e[0][0], 1e-8, "tensor product value (list, second)");
  for (int a = 0; a < 2; ++a)
    for (int b = 0; b < 2; ++b) {
      if ((a && !px) || (b && !py)) continue;
      Mat g = Spl::DeBoorTPDer(c, kx.t, ky.t, xs, ys, a == 1, b == 1);
      std::vector<Mat> g2 = Spl::DeBoorTPDer(cc, kx.t, ky.t, xs, ys, a == 1, b == 1);
      bsx_close(g(0, 1), e[a][b], 1e-8, "tensor product derivative");
      bsx_close(g2[0](0, 1), e[a][b], 1e-8, "tensor product derivative (list)");
      bsx_close(g2[1](0, 1), -3 * e[a][b], 1e-8, "tensor product derivative (list, second)");
    }
  bsx_cover("end");
}
//! fn=c02_tp tier=quick bounds="degrees 0..2 x 0..2 (also unequal), one or several intervals per direction, every real (x,y)"
extern "C" void c02_tp() {
  int px = bsx_choice("px", 0, 2), py = bsx_choice("py", 0, 2);
  tp(px, py);
}
//! fn=c02_tp_deep tier=thorough bounds="degrees 3..4 against 1..4"
extern "C" void c02_tp_deep() {
  int px = bsx_choice("px", 3, 4), py = bsx_choice("py", 1, 4);
  tp(px, py);
}
