// C15: function evaluation
#include "ops.h"
#include "bspl.h"
using namespace Bembel;

static const Eigen::Vector3d pos[6] = {{0, 0, 0}, {1, 0, .5}, {1, 1, 0}, {0, 1, .25}, {2, 0, 0}, {2, 1.5, 1}};
// shared edge between the patches
static Geometry two() {
  Eigen::Vector3d a[4] = {pos[0], pos[1], pos[2], pos[3]}, b[4] = {pos[4], pos[5], pos[2], pos[1]};
  std::vector<Patch> pv;
  pv.push_back(quad(a));
  pv.push_back(quad(b));
  return Geometry(pv);
}
static Eigen::Vector3d corner(int p, int i) {
  static const int id[2][4] = {{0, 1, 2, 3}, {4, 5, 2, 1}};
  return pos[id[p][i]];
}
// first derivatives of the surface
static Eigen::Vector3d du(int p, double v) { return (1 - v) * (corner(p, 1) - corner(p, 0)) + v * (corner(p, 2) - corner(p, 3)); }
static Eigen::Vector3d dv(int p, double u) { return (1 - u) * (corner(p, 3) - corner(p, 0)) + u * (corner(p, 2) - corner(p, 1)); }

struct Comp {
  Kn kx, ky;
  std::vector<double> c;  // tensor product coefficients of one patch
};
static double val(const Comp &q, double x, int sx, double y, int sy, int ddx = 0, int ddy = 0) {
  double v = 0;
  for (int j = 0; j < q.ky.n; ++j) {
    if (j > sy || j + q.ky.p < sy) continue;
    double r = 0;
    for (int i = 0; i < q.kx.n; ++i)
      if (i <= sx && i + q.kx.p >= sx) r += q.c[j * q.kx.n + i] * (ddx ? dN(q.kx, i, q.kx.p, x, sx) : N(q.kx, i, q.kx.p, x, sx));
    v += r * (ddy ? dN(q.ky, j, q.ky.p, y, sy) : N(q.ky, j, q.ky.p, y, sy));
  }
  return v;
}
// patchwise coefficients, computed with the dof identification of the space
// (conformity is C14)
template <class Op>
static std::vector<Comp> comps(const AnsatzSpace<Op> &as, int patch, int np, bool div, int rep, const Eigen::VectorXd &c) {
  const int P = as.get_polynomial_degree(), M = as.get_refinement_level(), n = 1 << M;
  SuperSpace<Op> sp;
  Geometry g(as.get_geometry());
  sp.init_SuperSpace(g, M, P);
  Projector<Op> pr(sp, rep);
  Glue<Op> gl(sp, pr);
  Eigen::VectorXd loc = gl.get_glue_matrix() * c;
  std::vector<Comp> r;
  int off = 0;
  for (int q = 0; q < (div ? 2 : 1); ++q) {
    const int px = div && q == 1 ? P - 1 : P, py = div && q == 0 ? P - 1 : P;
    Comp k;
    k.kx = make(px, std::vector<int>(n - 1, std::min(rep, px + 1)), false, "");
    k.ky = make(py, std::vector<int>(n - 1, std::min(rep, py + 1)), false, "");
    const int dim = k.kx.n * k.ky.n;
    for (int i = 0; i < dim; ++i) k.c.push_back(loc(off + patch * dim + i));
    off += np * dim;
    r.push_back(k);
  }
  return r;
}
static Eigen::VectorXd coef(int n) {
  Eigen::VectorXd c(n);
  for (int i = 0; i < n; ++i) c(i) = bsx_real(ora::nm("c", i).c_str(), -1, 1);
  return c;
}
static void config(int &P, int &M, int &rep, int minP) {
  P = bsx_choice("P", minP, 3), M = bsx_choice("M", 0, 2), rep = bsx_choice("rep", 1, 2);
  if (rep > std::max(P, 1) || P + M > 3) bsx_stop();
}
template <class Op>
static void scalar(int minP) {
  int P, M, rep;
  config(P, M, rep, minP);
  AnsatzSpace<Op> as(two(), M, P, rep);
  Eigen::VectorXd c = coef(as.get_number_of_dofs());
  FunctionEvaluator<Op> f(as, c);
  const int patch = bsx_choice("patch", 0, 1), n = 1 << M;
  std::vector<Comp> q = comps(as, patch, 2, false, rep, c);
  int su, sv;
  double u = point(q[0].kx, "u", su), v = point(q[0].ky, "v", sv);
  bsx_close(f.evaluateOnPatch(patch, Eigen::Vector2d(u, v))(0), n * val(q[0], u, su, v, sv), 1e-8, "value of the function on the patch");
  bsx_cover("end");
}
//! fn=c15_cont tier=quick bounds="two patches, degree 1..3, level 0..2, knot repetition 1..2, every coefficient vector, every point" cost=40
extern "C" void c15_cont() { scalar<ContOp>(1); }
//! fn=c15_disc tier=quick bounds="two patches, degree 0..3, level 0..2, knot repetition 1..2, every coefficient vector, every point" cost=40
extern "C" void c15_disc() { scalar<DiscOp>(0); }
//! fn=c15_div tier=quick bounds="two nonplanar patches, degree 1..3, level 0..2, knot repetition 1..2, every coefficient vector, every point: value and divergence" cost=60
extern "C" void c15_div() {
  int P, M, rep;
  config(P, M, rep, 1);
  AnsatzSpace<DivOp> as(two(), M, P, rep);
  Eigen::VectorXd c = coef(as.get_number_of_dofs());
  FunctionEvaluator<DivOp> f(as, c);
  const int patch = bsx_choice("patch", 0, 1), n = 1 << M;
  std::vector<Comp> q = comps(as, patch, 2, true, rep, c);
  const int ex = bsx_choice("ex", 0, n - 1), ey = bsx_choice("ey", 0, n - 1);
  double s = bsx_real("s", 0, 1), t = bsx_real("t", 0, 1);
  const double u = (ex + s) / n, v = (ey + t) / n;
  const ElementTree &et = as.get_superspace().get_mesh().get_element_tree();
  double val_[2], d = 0;
  for (int k = 0; k < 2; ++k) {
    const int sx = q[k].kx.last[ex], sy = q[k].ky.last[ey];
    val_[k] = n * val(q[k], u, sx, v, sy);
    d += n * val(q[k], u, sx, v, sy, k == 0, k == 1);
  }
  Eigen::Vector3d r = val_[0] * du(patch, v) + val_[1] * dv(patch, u);
  for (auto it = et.pbegin(); it != et.pend(); ++it)
    if (it->patch_ == patch && it->llc_(0) * n == ex && it->llc_(1) * n == ey) {
      SurfacePoint p;
      as.get_superspace().map2surface(*it, Eigen::Vector2d(s, t), 1., &p);
      Eigen::Vector3d w = f.evaluate(*it, p);
      for (int k = 0; k < 3; ++k) bsx_close(w(k), r(k), 1e-7, "value of the vector field on the element");
      bsx_close(f.evaluateDiv(*it, p), d, 1e-7, "divergence on the element");
      bsx_cover("end");
    }
}
//! fn=c15_div_patch tier=quick bounds="two nonplanar patches, degree 1, level 0..2, every coefficient vector, every patch point" cost=60
extern "C" void c15_div_patch() {
  int P = 1, M = bsx_choice("M", 0, 2), rep = 1;
  AnsatzSpace<DivOp> as(two(), M, P, rep);
  Eigen::VectorXd c = coef(as.get_number_of_dofs());
  FunctionEvaluator<DivOp> f(as, c);
  const int patch = bsx_choice("patch", 0, 1), n = 1 << M;
  std::vector<Comp> q = comps(as, patch, 2, true, rep, c);
  int su, sv;
  double u = point(q[0].kx, "u", su), v = point(q[1].ky, "v", sv);
  const int ex = su - 1, ey = sv - 1;  // degree one, simple knots
  Eigen::Vector3d r = n * val(q[0], u, q[0].kx.last[ex], v, q[0].ky.last[ey]) * du(patch, v) + n * val(q[1], u, q[1].kx.last[ex], v, q[1].ky.last[ey]) * dv(patch, u);
  Eigen::Vector3d w = f.evaluateOnPatch(patch, Eigen::Vector2d(u, v));
  for (int k = 0; k < 3; ++k) bsx_close(w(k), r(k), 1e-7, "value of the vector field on the patch");
  bsx_cover("end");
}
// every way to obtain an evaluator of the same function
template <class Op>
static void histories() {
  const int M = bsx_choice("M", 0, 1), P = bsx_choice("P", 1, 2);
  AnsatzSpace<Op> as(two(), M, P), as0(two(), 1 - M, 3 - P);
  Eigen::VectorXd c = coef(as.get_number_of_dofs());
  Eigen::VectorXd c0 = Eigen::VectorXd::Constant(as0.get_number_of_dofs(), .5);
  FunctionEvaluator<Op> ref(as, c);
  const int patch = bsx_choice("patch", 0, 1);
  double u = bsx_real("u", 0, 1), v = bsx_real("v", 0, 1);
  const auto want = ref.evaluateOnPatch(patch, Eigen::Vector2d(u, v));
  auto same = [&](const FunctionEvaluator<Op> &f) {
    const auto w = f.evaluateOnPatch(patch, Eigen::Vector2d(u, v));
    for (int k = 0; k < w.size(); ++k) bsx_equal(w(k), want(k), "same function");
  };
  switch (bsx_choice("history", 0, 7)) {
    case 0: {
      FunctionEvaluator<Op> f;
      f.init_FunctionEvaluator(as, c);
      same(f);
      break;
    }
    case 1: {
      FunctionEvaluator<Op> f(as);
      f.set_function(c);
      same(f);
      break;
    }
    case 2: {
      FunctionEvaluator<Op> f(ref);
      same(f);
      break;
    }
    case 3: {
      FunctionEvaluator<Op> f;
      f = ref;
      same(f);
      same(ref);
      break;
    }
    case 4: {
      FunctionEvaluator<Op> f(as0, c0);
      f = ref;
      same(f);
      break;
    }
    case 5: {
      FunctionEvaluator<Op> f(as0, c0);
      f.init_FunctionEvaluator(as);
      f.set_function(c);
      same(f);
      break;
    }
    case 6: {
      FunctionEvaluator<Op> g(ref), f(std::move(g));
      same(f);
      break;
    }
    case 7: {
      FunctionEvaluator<Op> f(as0, c0);
      f = FunctionEvaluator<Op>(as, c);
      f.set_function(c);
      f.set_function(c);
      same(f);
      break;
    }
  }
  bsx_cover("end");
}
//! fn=c15_hist_cont tier=quick bounds="8 construct/init/copy/assign/move histories, degree 1..2, level 0..1, every coefficient vector and point" cost=40
extern "C" void c15_hist_cont() { histories<ContOp>(); }
//! fn=c15_hist_div tier=quick bounds="8 construct/init/copy/assign/move histories, degree 1..2, level 0..1, every coefficient vector and point" cost=40
extern "C" void c15_hist_div() { histories<DivOp>(); }
