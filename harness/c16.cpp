// C16: block cluster tree
#include "ops.h"
#include <Bembel/H2Matrix>
using namespace Bembel;

static Geometry surf(int np, bool gap) {
  std::vector<Patch> pv;
  for (int p = 0; p < np; ++p) {
    Eigen::Vector3d c[4];
    for (int j = 0; j < 4; ++j) c[j] = Eigen::Vector3d(CX[j] + (gap ? 4 : 1) * p, CY[j], gap && CX[j] > .5 ? .25 : 0);
    pv.push_back(quad(c));
  }
  return Geometry(pv);
}
template <class T>
static void partition(T &bt, const ElementTree &et, double eta, int ml, int P) {
  const int N = et.get_number_of_elements(), I = (P + 1) * (P + 1), L = et.get_max_level();
  std::vector<int> cnt(N * N, 0);
  bool ok = true, adm = true, dense = true;
  // ranges of the clusters in the element numbering
  for (auto it = bt.lbegin(); it != bt.lend(); ++it) {
    const ElementTreeNode &a = *(*it)->get_cluster1(), &b = *(*it)->get_cluster2();
    std::vector<int> ea, eb;
    for (auto e = a.begin(); e != a.end(); ++e) ea.push_back(e->id_);
    for (auto e = b.begin(); e != b.end(); ++e) eb.push_back(e->id_);
    for (int i : ea)
      for (int j : eb) ++cnt[i * N + j];
    const int r0 = (*it)->get_row_start_index(), r1 = (*it)->get_row_end_index(), c0 = (*it)->get_col_start_index(), c1 = (*it)->get_col_end_index();
    ok = ok & (r0 == I * ea.front()) & (r1 == I * (ea.back() + 1)) & (c0 == I * eb.front()) & (c1 == I * (eb.back() + 1));
    ok = ok & (r1 - r0 == I * (int)ea.size()) & (c1 - c0 == I * (int)eb.size()) & ((*it)->rows() == (int)ea.size()) & ((*it)->cols() == (int)eb.size());
    ok = ok & (a.level_ == b.level_);
    const int cc = (*it)->get_cc();
    ok = ok & ((cc == BlockClusterAdmissibility::LowRank) | (cc == BlockClusterAdmissibility::Dense));
    double d = (a.midpoint_ - b.midpoint_).norm() - a.radius_ - b.radius_, r = std::max(a.radius_, b.radius_);
    if (cc == BlockClusterAdmissibility::LowRank) {
      adm = adm & (d > 0) & (r < eta * d);
      ok = ok & (a.level_ >= 0) & (L - a.level_ >= ml);
    } else {
      dense = dense & !((d > 0) & (r < eta * d));
      ok = ok & ((L - a.level_ == ml) | ((a.id_ == -1) & (L < ml)));
    }
  }
  bsx_assert(adm, "compressed blocks are admissible");
  bsx_assert(dense, "admissible blocks are compressed");
  bsx_assert(ok, "ranges and levels of the blocks");
  bool once = true;
  for (int i : cnt) once = once & (i == 1);
  bsx_assert(once, "every pair of elements belongs to exactly one block");
}
//! fn=c16_eta tier=quick bounds="one or two patches, level 0..2, minimal cluster level 0..3, every admissibility parameter in [0,16]" cost=60
extern "C" void c16_eta() {
  int np = bsx_choice("np", 1, 2), M = bsx_choice("M", 0, 2), ml = bsx_choice("ml", 0, 3), gap = bsx_choice("gap", 0, 1), P = bsx_choice("P", 0, 1);
  if (ml > M + 1 || (P && M > 1) || (np == 1 && gap)) bsx_stop();
  AnsatzSpace<DiscOp> as(surf(np, gap), M, P);
  double eta = bsx_real("eta", 0, 16);
  DiscOp op;
  BlockClusterTree<double> bt;
  bt.set_parameters(eta, ml);
  bt.init_BlockClusterTree(op, as);
  bsx_assert(bt.get_parameters().min_cluster_level_ == ml && bt.get_parameters().max_level_ == M, "parameters of the partition");
  partition(bt, as.get_superspace().get_mesh().get_element_tree(), eta, ml, P);
  bsx_cover("end");
}
//! fn=c16_pos tier=quick bounds="three patches at any position and of any size (bounding balls on an axis), level 0..1, minimal cluster level 0, every admissibility parameter in [1/16,16]" cost=60
extern "C" void c16_pos() {
  int M = bsx_choice("M", 0, 0);
  AnsatzSpace<DiscOp> as(surf(3, true), M, 0);
  const ElementTree &et = as.get_superspace().get_mesh().get_element_tree();
  double eta = bsx_real("eta", 0.0625, 16);
  int i = 0;
  for (auto &n : const_cast<ElementTreeNode &>(et.root()).sons_) {
    n.midpoint_ = Eigen::Vector3d(bsx_real(ora::nm("m", i).c_str(), -4, 4), 0, 0);
    n.radius_ = bsx_real(ora::nm("r", i).c_str(), 0.0625, 2);
    ++i;
  }
  DiscOp op;
  BlockClusterTree<double> bt;
  bt.set_parameters(eta, 0);
  bt.init_BlockClusterTree(op, as);
  partition(bt, et, eta, 0, 0);
  bsx_cover("end");
}
