#include "ops.h"
using namespace Bembel;

static Patch flat(double z) {
  Eigen::Vector3d c[4];
  for (int j = 0; j < 4; ++j) c[j] = Eigen::Vector3d(CX[j] + 3 * z, CY[j], z);
  return quad(c);
}
// piecewise constants whose value is the number of the element
static void lookup(int np, int level, bool ysym) {
  std::vector<Patch> pv;
  for (int p = 0; p < np; ++p) pv.push_back(flat(p));
  Geometry geo(pv);
  AnsatzSpace<DiscOp> sp(geo, level, 0);
  const int n = 1 << level;
  const double h = 1. / n;
  Eigen::VectorXd c(np * n * n);
  auto &et = sp.get_superspace().get_mesh().get_element_tree();
  std::vector<Eigen::Vector2d> llc(np * n * n);
  for (auto it = et.pbegin(); it != et.pend(); ++it) {
    c(it->id_) = it->id_ * h;
    llc[it->id_] = it->llc_;
  }
  c = (sp.get_transformation_matrix().transpose() * c).eval();
  FunctionEvaluator<DiscOp> ev(sp, c);
  int patch = bsx_choice("patch", 0, np - 1);
  double x = bsx_real("x", 0, 1), y = ysym ? bsx_real("y", 0, 1) : .25 * bsx_choice("y4", 0, 4);
  double v = ev.evaluateOnPatch(patch, Eigen::Vector2d(x, y))(0);
  int k = (int)std::floor(v + .25);
  bsx_assert(k >= 0 && k < np * n * n && v - k < .01 && k - v < .01, "value of one element");
  bsx_assert(k / (n * n) == patch, "element of the patch");
  bsx_assert((llc[k](0) <= x) & (x <= llc[k](0) + h), "the element contains the point (first coordinate)");
  bsx_assert((llc[k](1) <= y) & (y <= llc[k](1) + h), "the element contains the point (second coordinate)");
  bsx_cover("end");
}
//! fn=c08_l1 tier=quick mode=fp bounds="IEEE: every pair of doubles in the unit square, refinement level 0 and 1, two patches" cost=30
extern "C" void c08_l1() { lookup(2, bsx_choice("level", 0, 1), true); }
//! fn=c08_l2 tier=quick mode=fp bounds="IEEE: every pair of doubles in the unit square, refinement level 2, one patch" cost=30
extern "C" void c08_l2() { lookup(1, 2, true); }
//! fn=c08_l4 tier=quick mode=fp bounds="IEEE: every double in the first coordinate, five values in the second, refinement level 3 and 4" cost=30
extern "C" void c08_l4() { lookup(1, bsx_choice("level", 3, 4), false); }
//! fn=c08_l5 tier=thorough mode=fp bounds="IEEE: every double in the first coordinate, five values in the second, refinement level 5" cost=30
extern "C" void c08_l5() { lookup(1, 5, false); }
//! fn=c08_l3 tier=thorough mode=fp bounds="IEEE: every pair of doubles in the unit square, refinement level 3" cost=30
extern "C" void c08_l3() { lookup(1, 3, true); }

//! fn=c08_ref tier=quick mode=fp bounds="IEEE: every double of every cell of a row, level 0..4: local coordinate in the unit interval and monotone at the ends" cost=30
extern "C" void c08_ref() {
  int level = bsx_choice("level", 0, 4), i = bsx_choice("cell", 0, 15);
  if (i >= 1 << level) bsx_stop();
  ElementTreeNode n;
  n.level_ = level;
  const double h = 1. / (1 << level);
  n.llc_ << i * h, .5;
  double x = bsx_real("x", 0, 1);
  bsx_assume((i * h <= x) & (x <= i * h + h));
  Eigen::Vector2d r = n.mapToReferenceElement(Eigen::Vector2d(x, .5));
  bsx_assert((0 <= r(0)) & (r(0) <= 1) & (r(1) == 0), "local coordinate lies in the unit square");
  bsx_assert((r(0) != 0) | (x == i * h), "only the left end is mapped to zero");
  bsx_assert((x != i * h + h) | (r(0) == 1), "the right end is mapped to one");
  bsx_cover("end");
}
