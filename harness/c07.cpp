#include "geo.h"
#include <Bembel/ClusterTree>
using namespace Bembel;

// corners on one coordinate axis: every coincidence pattern of the corners is
// realised by real numbers; coinciding means closer than half the tolerance,
// otherwise the corners are clearly apart
static void topo(int np, int axis) {
  const double tol = Constants::pt_comp_tolerance;
  std::vector<double> x(4 * np);
  for (int i = 0; i < 4 * np; ++i) x[i] = bsx_real(ora::nm("x", i / 4, i % 4).c_str(), 0, 16);
  std::vector<std::vector<int>> same(4 * np, std::vector<int>(4 * np, 1));
  std::vector<int> isnear;
  for (int i = 0; i < 4 * np; ++i)
    for (int j = 0; j < i; ++j) {
      double d = x[i] - x[j];
      bool near = (d <= 0.25 * tol) & (d >= -0.25 * tol), far = (d >= 4 * tol) | (d <= -4 * tol);
      if (i / 4 == j / 4)
        bsx_assume(far);
      else
        bsx_assume(near | far);
      isnear.push_back(near);
    }
  PatchVector pv;
  for (int p = 0; p < np; ++p) {
    Eigen::Vector3d c[4];
    for (int j = 0; j < 4; ++j) {
      c[j] = Eigen::Vector3d(1, 2, 3);
      c[j](axis) = x[4 * p + j];
    }
    pv.push_back(quad(c));
  }
  Geometry geo(pv);
  ElementTree t(geo, 0);
  const ElementTreeNode &root = t.root();
  bsx_assert((int)root.sons_.size() == np && t.get_number_of_elements() == np, "one element per patch");
  int id[64], maxid = -1;
  for (int i = 0; i < 4 * np; ++i) {
    id[i] = root.sons_[i / 4].vertices_[i % 4];
    maxid = std::max(maxid, id[i]);
  }
  bool merged = true;
  for (int i = 0, k = 0; i < 4 * np; ++i)
    for (int j = 0; j < i; ++j, ++k) {
      merged &= (id[i] == id[j]) == (isnear[k] != 0);
      same[i][j] = same[j][i] = id[i] == id[j];
    }
  bsx_assert(merged, "corners are merged exactly when they coincide");
  bsx_assert(t.get_number_of_points() == maxid + 1, "number of points");
  // shared edges according to the coordinates; only surfaces where at most
  // two patches meet in an edge
  std::vector<int> nb(4 * np, -1);
  for (int i = 0; i < 4 * np; ++i)
    for (int j = 0; j < 4 * np; ++j)
      if (i / 4 != j / 4) {
        int i0 = i, i1 = i / 4 * 4 + (i + 1) % 4, j0 = j, j1 = j / 4 * 4 + (j + 1) % 4;
        bool sh = (same[i0][j0] & same[i1][j1]) | (same[i0][j1] & same[i1][j0]);
        if (sh) {
          if (nb[i] >= 0) bsx_stop();
          nb[i] = j;
        }
      }
  auto info = t.patchTopologyInfo();
  int expected = 0;
  for (int i = 0; i < 4 * np; ++i) {
    const ElementTreeNode *a = root.sons_[i / 4].adjcents_[i % 4];
    const ElementTreeNode *w = nb[i] < 0 ? nullptr : &root.sons_[nb[i] / 4];
    bsx_assert(a == w, "neighbour across an edge");
    if (nb[i] < 0 || i / 4 < nb[i] / 4) {
      ++expected;
      int found = 0;
      for (auto &e : info)
        found += e[0] == i / 4 && e[2] == i % 4 && (nb[i] < 0 ? e[1] == -1 && e[3] == -1 : e[1] == nb[i] / 4 && e[3] == nb[i] % 4);
      bsx_assert(found == 1, "interface or boundary reported once with its edge numbers");
    }
  }
  bsx_assert((int)info.size() == expected, "no other interface is reported");
  auto lab = t.generatePatchBoundaryLabels();
  for (int p = 0; p < np; ++p) {
    int n = 0;
    bool bd = false;
    for (int j = 0; j < 4; ++j) {
      if (nb[4 * p + j] < 0) bd = true;
      else ++n;
    }
    bsx_assert(lab(p) == (bd ? -1 : n), "boundary label");
  }
  bsx_cover("end");
}
//! fn=c07_two tier=quick bounds="two patches, every real corner position (per coordinate axis), corners coincide up to a quarter of the tolerance or are four tolerances apart" cost=60
extern "C" void c07_two() { topo(2, bsx_choice("axis", 0, 2)); }
