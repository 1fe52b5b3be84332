#include "geo.h"
#include <Bembel/ClusterTree>
using namespace Bembel;
static const double tol = 1e-9;

//! fn=c09_ball tier=quick bounds="all real centres in [-4,4]^3 and radii in [0,8] of two balls" cost=30
extern "C" void c09_ball() {
  Eigen::Vector3d a, b, m;
  for (int k = 0; k < 3; ++k) {
    a(k) = bsx_real(ora::nm("a", k).c_str(), -4, 4);
    b(k) = bsx_real(ora::nm("b", k).c_str(), -4, 4);
  }
  double r = bsx_real("r", 0, 8), s = bsx_real("s", 0, 8), R;
  util::computeEnclosingBall(&m, &R, a, r, b, s);
  // |m - a| + r <= R
  bsx_assert(R + tol >= r, "radius is at least the first radius");
  bsx_assert(R + tol >= s, "radius is at least the second radius");
  bsx_assert((R - r) * (R - r) + tol >= (m - a).squaredNorm(), "first ball is contained");
  bsx_assert((R - s) * (R - s) + tol >= (m - b).squaredNorm(), "second ball is contained");
  bsx_cover("end");
}
static double dist(const Eigen::Vector3d &a, const Eigen::Vector3d &b, int axis) { return std::fabs(a(axis) - b(axis)); }
static void inside(const ElementTreeNode &n, const Patch &p, int axis, int &cnt) {
  const double h = n.get_h();
  bsx_assert(n.radius_ + tol >= 0, "radius is not negative");
  if (n.sons_.size() == 0) {
    ++cnt;
    for (int j = 0; j < 4; ++j) {
      Eigen::Vector3d v = p.eval(n.llc_(0) + CX[j] * h, n.llc_(1) + CY[j] * h);
      bsx_assert(dist(v, n.midpoint_, axis) <= n.radius_ + tol, "corners of an element lie in its ball");
      for (int k = 0; k < 3; ++k)
        if (k != axis) bsx_close(n.midpoint_(k), v(k), 1e-9, "midpoint on the line");
    }
  }
  for (auto &s : n.sons_) {
    bsx_assert(dist(s.midpoint_, n.midpoint_, axis) + s.radius_ <= n.radius_ + tol, "balls of the sons lie in the ball of the father");
    inside(s, p, axis, cnt);
  }
}
// corners on a coordinate axis: all distances are absolute values
static void line(int level, int nsym, bool build) {
  bsx_fork_abs(1);
  int axis = bsx_choice("axis", 0, 2);
  Eigen::Vector3d c[4];
  for (int j = 0; j < 4; ++j) {
    c[j] = Eigen::Vector3d(1, 2, 3);
    c[j](axis) = j < nsym ? bsx_real(ora::nm("x", j).c_str(), -8, 8) : (j == 1 ? 3.25 : j == 2 ? 1 : -2);
  }
  for (int j = 0; j < 4; ++j)
    for (int i = 0; i < j; ++i) {
      double d = c[i](axis) - c[j](axis);
      bsx_assume((d >= .125) | (d <= -.125));  // corners of a patch are different points
    }
  std::vector<Patch> pv{quad(c)};
  Geometry geo(pv);
  ClusterTree ct;
  ElementTree t;
  if (build)
    ct.init_ClusterTree(geo, level);
  else {
    t.init_ElementTree(geo, level);
    t.computeElementEnclosings();
  }
  const ElementTree &et = build ? ct.get_element_tree() : t;
  int n = 0;
  inside(et.root().sons_[0], pv[0], axis, n);
  bsx_assert(n == 1 << (2 * level), "all elements");
  Eigen::MatrixXd mp = et.generateMidpointList();
  auto rd = et.generateRadiusList();
  int k = 0;
  for (auto it = et.pbegin(); it != et.pend(); ++it, ++k) {
    for (int i = 0; i < 3; ++i) bsx_equal(mp(i, k), it->midpoint_(i), "midpoint list");
    bsx_equal(rd(k), it->radius_, "radius list");
  }
  bsx_cover("end");
}
//! fn=c09_leaf tier=quick bounds="one element, every position of the corners (apart from each other) on a coordinate axis" cost=30
extern "C" void c09_leaf() { line(0, 4, bsx_choice("cluster tree", 0, 1)); }
//! fn=c09_tree tier=quick bounds="level 1, every position of one corner (apart from each other) on a coordinate axis" cost=30
extern "C" void c09_tree() { line(1, 1, true); }
//! fn=c09_deep tier=thorough bounds="level 1, every position of two corners on a coordinate axis" cost=30 time=800
extern "C" void c09_deep() { line(1, 2, false); }
//! fn=c09_two_levels tier=thorough bounds="level 2, every position of one corner on a coordinate axis" cost=30 time=800
extern "C" void c09_two_levels() { line(2, 1, true); }
