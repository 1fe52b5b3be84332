#include "geo.h"
#include <Bembel/ClusterTree>
#include <Bembel/DuffyTrick>
using namespace Bembel;

//! fn=c10_tau tier=quick bounds="every real point of the plane square, all four rotations and the identity code" cost=10
extern "C" void c10_tau() {
  int r = bsx_choice("rot", 0, 4);
  double x = bsx_real("x", 0, 1), y = bsx_real("y", 0, 1);
  Eigen::Vector2d p = DuffyTrick::tau(x, y, r);
  // r quarter turns about the centre
  double a = x - .5, b = y - .5;
  for (int i = 0; i < r % 4; ++i) {
    double t = a;
    a = -b;
    b = t;
  }
  bsx_equal(p(0), a + .5, "first coordinate is rotated");
  bsx_equal(p(1), b + .5, "second coordinate is rotated");
  Eigen::Vector2d c = DuffyTrick::tau(0, 0, r), d = DuffyTrick::tau(1, 0, r);
  bsx_assert(c(0) == CX[r % 4] && c(1) == CY[r % 4], "origin is mapped to the corner");
  bsx_assert(d(0) == CX[(r + 1) % 4] && d(1) == CY[(r + 1) % 4], "first edge is mapped to the edge");
  bsx_cover("end");
}

static void fill(ElementTreeNode *e, const char *n, int level) {
  e->vertices_.resize(4);
  e->level_ = level;
  for (int j = 0; j < 4; ++j) e->vertices_[j] = bsx_int(ora::nm(n, j).c_str(), 0, 9);
  for (int j = 0; j < 4; ++j)
    for (int i = 0; i < j; ++i) bsx_assume(e->vertices_[i] != e->vertices_[j]);
}
//! fn=c10_compare tier=quick bounds="every vertex numbering (0..9) of two elements, every distance and radius of the balls (axis aligned), level 0..3" cost=60
extern "C" void c10_compare() {
  ElementTreeNode a, b;
  int level = bsx_choice("level", 0, 3);
  fill(&a, "a", level);
  fill(&b, "b", level);
  double d = bsx_real("d", 0, 8);
  a.radius_ = bsx_real("ra", 0, 2);
  b.radius_ = bsx_real("rb", 0, 2);
  int axis = bsx_choice("axis", 0, 2);
  a.midpoint_ << 1, 2, 3;
  b.midpoint_ << 1, 2, 3;
  b.midpoint_(axis) += d;
  // coincidences
  int pa[16], pb[16], n = 0;
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j)
      if (a.vertices_[i] == b.vertices_[j]) {
        pa[n] = i;
        pb[n++] = j;
      }
  if (n > 2) bsx_stop();
  int ea = -1, eb = -1;
  if (n == 2) {
    // consistently oriented surfaces: shared edges are run through in opposite directions
    for (int s = 0; s < 2; ++s)
      if (pa[1 - s] == (pa[s] + 1) % 4 && pb[s] == (pb[1 - s] + 1) % 4) {
        ea = pa[s];
        eb = pb[1 - s];
      }
    if (ea < 0) bsx_stop();
  }
  // the balls contain the elements
  if (n > 0) bsx_assume(d <= a.radius_ + b.radius_);
  double dist = -1;
  Eigen::Vector3i r = DuffyTrick::compareElements(a, b, &dist);
  double want = d - a.radius_ - b.radius_;
  if (want >= 0)
    bsx_equal(dist, want, "distance of the balls");
  else
    bsx_assert(dist == 0, "distance of the balls");
  if (n == 0) {
    bsx_assert(r(2) == 0, "elements without common vertex are separated");
  } else if (n == 1) {
    bsx_assert(r(2) == 4, "common vertex");
    bsx_assert(r(0) == pa[0] && r(1) == pb[0], "rotations move the common vertex to the origin");
  } else {
    bsx_assert(r(2) == 3, "common edge");
    bsx_assert(r(0) == ea && r(1) == eb, "rotations move the common edge to the first edge");
  }
  bsx_cover("end");
}
//! fn=c10_same tier=quick bounds="an element and itself, and a copy of its data" cost=5
extern "C" void c10_same() {
  ElementTreeNode a;
  fill(&a, "a", 1);
  a.radius_ = bsx_real("r", 0, 2);
  double dist = -1;
  Eigen::Vector3i r = DuffyTrick::compareElements(a, a, &dist);
  bsx_assert(r(2) == 2 && dist == 0, "identical elements");
  bsx_cover("end");
}

static Eigen::Vector3d at(const ElementTreeNode &e, const std::vector<Patch> &pv, const Eigen::Vector2d &x) {
  double h = e.get_h();
  return pv[e.patch_].eval(e.llc_(0) + h * x(0), e.llc_(1) + h * x(1));
}
static bool same(const Eigen::Vector3d &a, const Eigen::Vector3d &b) { return (a - b).norm() < 1e-6; }
// all pairs of elements of refined meshes: the rotated reference squares meet
static void mesh(bool edge, int level) {
  int j = bsx_choice("first", 0, 3), k = bsx_choice("second", 0, 3);
  Eigen::Vector3d c[4], d[4], o[4];
  for (int i = 0; i < 4; ++i) {
    c[i] = Eigen::Vector3d(CX[i] * 2, CY[i] * 1.5, CX[i] * CY[i]);
    o[i] = Eigen::Vector3d(5 + CX[i], 7 - CY[i] + .5 * CX[i], 1 + CX[i]);
    d[i] = o[i];
  }
  // the second patch: corner k (and k+1) are those of the first
  d[k] = edge ? c[(j + 1) % 4] : c[j];
  if (edge) d[(k + 1) % 4] = c[j];
  std::vector<Patch> pv{quad(c), quad(d)};
  Geometry geo(pv);
  ClusterTree ct(geo, level);
  ElementTree &t = ct.get_element_tree();
  double s = bsx_real("s", 0, 1);
  for (auto a = t.pbegin(); a != t.pend(); ++a)
    for (auto b = t.pbegin(); b != t.pend(); ++b) {
      double dist;
      Eigen::Vector3i r = DuffyTrick::compareElements(*a, *b, &dist);
      int n = 0;
      for (int p = 0; p < 4; ++p)
        for (int q = 0; q < 4; ++q) n += same(at(*a, pv, Eigen::Vector2d(CX[p], CY[p])), at(*b, pv, Eigen::Vector2d(CX[q], CY[q])));
      bsx_assert(r(2) == (n == 0 ? 0 : n == 1 ? 4 : n == 2 ? 3 : 2), "classification matches the common corners");
      if (r(2) == 3 || r(2) == 4) {
        Eigen::Vector3d x = at(*a, pv, DuffyTrick::tau(r(2) == 3 ? s : 0, 0, r(0))), y = at(*b, pv, DuffyTrick::tau(r(2) == 3 ? 1 - s : 0, 0, r(1)));
        for (int i = 0; i < 3; ++i) bsx_close(x(i), y(i), 1e-9, "rotated squares meet in the common edge or vertex");
      }
    }
  bsx_cover("end");
}
//! fn=c10_edge tier=quick bounds="two patches meeting in an edge, 16 orientations, level 0..2, every point of the edge" cost=30
extern "C" void c10_edge() { mesh(true, bsx_choice("level", 0, 2)); }
//! fn=c10_vertex tier=quick bounds="two patches meeting in a vertex, 16 orientations, level 0..2, every point of the edges" cost=30
extern "C" void c10_vertex() { mesh(false, bsx_choice("level", 0, 2)); }
