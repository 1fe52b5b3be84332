#include "ops.h"
#include "bspl.h"
#include <map>
using namespace Bembel;

// value of the spline function of one component with the given knots
static double spline(const Kn &kx, const Kn &ky, const std::vector<double> &c, double x, int sx, double y, int sy) {
  std::vector<double> nx(kx.n), ny(ky.n);
  for (int i = 0; i < kx.n; ++i) nx[i] = N(kx, i, kx.p, x, sx);
  for (int j = 0; j < ky.n; ++j) ny[j] = N(ky, j, ky.p, y, sy);
  double v = 0;
  for (int j = 0; j < ky.n; ++j) {
    if (j > sy || j + ky.p < sy) continue;
    double r = 0;
    for (int i = 0; i < kx.n; ++i)
      if (i <= sx && i + kx.p >= sx) r += c[j * kx.n + i] * nx[i];
    v += r * ny[j];
  }
  return v;
}
// comps: degrees of the components
template <class Op>
static void embed(int np, int P, int M, int rep, const std::vector<std::pair<int, int>> &comps, bool pointwise) {
  std::vector<Patch> pv;
  for (int p = 0; p < np; ++p) {
    Eigen::Vector3d c[4];
    for (int j = 0; j < 4; ++j) c[j] = Eigen::Vector3d(CX[j] + 3 * p, CY[j], p);
    pv.push_back(quad(c));
  }
  Geometry geo(pv);
  SuperSpace<Op> sp(geo, M, P);
  Projector<Op> proj(sp, rep);
  const Eigen::SparseMatrix<double> &T = proj.get_projection_matrix();
  const int n = 1 << M, loc = (P + 1) * (P + 1), half = np * n * n * loc;
  bsx_assert(T.rows() == half * (int)comps.size(), "number of elementwise coefficients");
  bsx_assert(proj.get_knot_repetition() == rep, "knot repetition");
  int dim = 0;
  std::vector<std::pair<Kn, Kn>> kn;
  for (auto &c : comps) {
    int mx = std::min(rep, c.first + 1), my = std::min(rep, c.second + 1);
    if (rep > P) mx = my = std::min(c.first, c.second) + 1;
    kn.push_back(std::make_pair(make(c.first, std::vector<int>(n - 1, mx), false, ""), make(c.second, std::vector<int>(n - 1, my), false, "")));
    dim += np * kn.back().first.n * kn.back().second.n;
  }
  bsx_assert(T.cols() == dim && proj.get_dofs_after_projector() == dim, "dimension of the spline space");
  std::vector<double> c(dim);
  for (int i = 0; i < dim; ++i) c[i] = bsx_real(ora::nm("c", i).c_str(), -1, 1);
  std::vector<double> e(T.rows(), 0.);
  for (int k = 0; k < T.outerSize(); ++k)
    for (Eigen::SparseMatrix<double>::InnerIterator it(T, k); it; ++it) e[it.row()] += it.value() * c[it.col()];
  double s = bsx_real("s", 0, 1), t = bsx_real("t", 0, 1);
  const ElementTree &et = sp.get_mesh().get_element_tree();
  int off = 0;
  for (size_t q = 0; q < comps.size(); ++q) {
    const Kn &kx = kn[q].first, &ky = kn[q].second;
    for (auto it = et.pbegin(); it != et.pend(); ++it) {
      const int ix = (int)std::floor(it->llc_(0) * n + .5), iy = (int)std::floor(it->llc_(1) * n + .5);
      std::vector<double> cp(c.begin() + off + it->patch_ * kx.n * ky.n, c.begin() + off + (it->patch_ + 1) * kx.n * ky.n);
      const double *ce = e.data() + q * half + it->id_ * loc;
      if (pointwise) {
        double v = 0;
        for (int b = 0; b <= P; ++b) {
          double r = 0;
          for (int a = 0; a <= P; ++a) r += ce[b * (P + 1) + a] * ora::bern(P, a, s);
          v += r * ora::bern(P, b, t);
        }
        bsx_close(v, spline(kx, ky, cp, (ix + s) / n, kx.last[ix], (iy + t) / n, ky.last[iy]), 1e-8, "elementwise function coincides with the spline");
      } else {
        // polynomials of degree P in each variable that agree on a grid of
        // (P+1)^2 points are equal
        for (int j = 0; j <= P; ++j)
          for (int i = 0; i <= P; ++i) {
            double ss = (double)i / P, tt = (double)j / P, v = 0;
            for (int b = 0; b <= P; ++b)
              for (int a = 0; a <= P; ++a) v += ce[b * (P + 1) + a] * (ora::bern(P, a, ss) * ora::bern(P, b, tt));
            bsx_close(v, spline(kx, ky, cp, (ix + ss) / n, kx.last[ix], (iy + tt) / n, ky.last[iy]), 1e-6, "elementwise function coincides with the spline");
          }
      }
    }
    off += np * kx.n * ky.n;
  }
  bsx_cover("end");
}
//! fn=c13_scalar tier=quick bounds="degree 0..3, level 0..2, knot repetition 1..degree+1, two patches, every coefficient vector, every point" cost=60
extern "C" void c13_scalar() {
  int P = bsx_choice("P", 0, 3), M = bsx_choice("M", 0, 2), rep = bsx_choice("rep", 1, 4);
  if (rep > P + 1 || (P > 2 && M > 1)) bsx_stop();
  embed<DiscOp>(M > 1 ? 1 : 2, P, M, rep, {{P, P}}, true);
}
//! fn=c13_cont tier=quick bounds="degree 1..3, level 0..2, knot repetition 1..degree, every coefficient vector, every point (before gluing)" cost=60
extern "C" void c13_cont() {
  int P = bsx_choice("P", 1, 3), M = bsx_choice("M", 0, 2), rep = bsx_choice("rep", 1, 3);
  if (rep > P || (P > 2 && M > 1)) bsx_stop();
  embed<ContOp>(1, P, M, rep, {{P, P}}, true);
}
//! fn=c13_div tier=quick bounds="degree 1..3, level 0..2, knot repetition 1..degree, two patches, both components, every coefficient vector, every point" cost=60
extern "C" void c13_div() {
  int P = bsx_choice("P", 1, 3), M = bsx_choice("M", 0, 2), rep = bsx_choice("rep", 1, 3);
  if (rep > P || (P > 2 && M > 1)) bsx_stop();
  embed<DivOp>(M > 1 ? 1 : 2, P, M, rep, {{P, P - 1}, {P - 1, P}}, true);
}
//! fn=c13_high tier=quick bounds="degree 4..5, level 3, knot repetition 1, every coefficient vector, every point (by unisolvence on a grid)" cost=60
extern "C" void c13_high() { int P = bsx_choice("P", 4, 5);
  embed<DiscOp>(1, P, 3, 1, {{P, P}}, false); }
//! fn=c13_high_deep tier=thorough bounds="degree 6..7, level 3, knot repetition 1..2, every coefficient vector, every point (by unisolvence on a grid)" time=800
extern "C" void c13_high_deep() { int P = bsx_choice("P", 6, 7), r = bsx_choice("r", 1, 2);
  embed<DiscOp>(1, P, 3, r, {{P, P}}, false); }
