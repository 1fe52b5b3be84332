#include "geo.h"
#include <Bembel/ClusterTree>
using namespace Bembel;

// vertex numbers of the corners of the patches, as glued
struct Gluing {
  int np, nv;
  int v[8][4];
};
// union-find over the lattice points of all patches
struct Lattice {
  int np, n;  // n cells per direction
  std::vector<int> rep;
  Lattice(const Gluing &g, int level) : np(g.np), n(1 << level), rep(np * (n + 1) * (n + 1)) {
    for (size_t i = 0; i < rep.size(); ++i) rep[i] = i;
    for (int p = 0; p < np; ++p)
      for (int a = 0; a < 4; ++a)
        for (int q = 0; q < np; ++q)
          for (int b = 0; b < 4; ++b) {
            if (p == q) continue;
            if (g.v[p][a] == g.v[q][b]) join(edge(p, a, 0), edge(q, b, 0));
            int a1 = (a + 1) % 4, b1 = (b + 1) % 4;
            bool same = g.v[p][a] == g.v[q][b] && g.v[p][a1] == g.v[q][b1];
            bool opp = g.v[p][a] == g.v[q][b1] && g.v[p][a1] == g.v[q][b];
            for (int t = 0; t <= n && (same || opp); ++t) join(edge(p, a, t), edge(q, b, same ? t : n - t));
          }
  }
  int at(int p, int i, int j) const { return (p * (n + 1) + j) * (n + 1) + i; }
  // t-th lattice point of edge a of patch p
  int edge(int p, int a, int t) const {
    switch (a) {
      case 0: return at(p, t, 0);
      case 1: return at(p, n, t);
      case 2: return at(p, n - t, n);
      default: return at(p, 0, n - t);
    }
  }
  int find(int x) const {
    while (rep[x] != x) x = rep[x];
    return x;
  }
  void join(int a, int b) { rep[find(a)] = find(b); }
};

static void check(const ElementTree &t, const Gluing &g, int level, const std::vector<Patch> &geo, bool pts) {
  const int np = g.np, n = 1 << level, per = n * n, N = np * per;
  const double h = 1. / n;
  Lattice lat(g, level);
  bsx_assert(t.get_number_of_elements() == N, "number of elements");
  bsx_assert(t.get_max_level() == level, "max level");
  std::vector<int> cell(N, -1), gx(N), gy(N);  // element id -> cell
  std::vector<int> vid(lat.rep.size(), -1), cls(4 * N + 1, -1);
  std::vector<const ElementTreeNode *> node(N, nullptr);
  int k = 0, maxv = -1;
  auto list = t.generateElementList();
  auto ro = t.computeReorderingVector();
  auto glob = t.generateElementLabels();
  for (auto it = t.pbegin(); it != t.pend(); ++it, ++k) {
    bsx_assert(k < N, "iteration ends");
    bsx_assert(it->id_ == k, "leaves are visited in the order of their numbers");
    node[k] = std::addressof(*it);
    bsx_assert(it->level_ == level && it->get_level() == level, "level of the leaf");
    bsx_assert(it->get_h() == h, "mesh width");
    bsx_assert(it->patch_ == k / per, "patch of the leaf");
    bsx_assert(it->sons_.size() == 0 && it->adjcents_.size() == 4 && it->vertices_.size() == 4, "leaf data");
    double fx = it->llc_(0) * n, fy = it->llc_(1) * n;
    int ix = (int)fx, iy = (int)fy;
    bsx_assert(ix == fx && iy == fy && ix >= 0 && iy >= 0 && ix < n && iy < n, "lower left corner lies on the grid");
    bsx_assert(it->referenceMidpoint()(0) == (ix + .5) * h && it->referenceMidpoint()(1) == (iy + .5) * h, "reference midpoint");
    gx[k] = ix;
    gy[k] = iy;
    int c = it->patch_ * per + iy * n + ix;
    bsx_assert(cell[c] < 0, "cells are covered once");
    cell[c] = k;
    bsx_assert(ro[c] == k, "reordering vector");
    bsx_assert(glob(k) == np * ((n * n - 1) / 3) + k, "global element number");
    for (int j = 0; j < 4; ++j) {
      int l = lat.find(lat.at(it->patch_, ix + (int)CX[j], iy + (int)CY[j])), v = it->vertices_[j];
      bsx_assert(v >= 0 && v < t.get_number_of_points(), "vertex number in range");
      bsx_assert(vid[l] < 0 || vid[l] == v, "elements sharing a point share its number");
      bsx_assert(cls[v] < 0 || cls[v] == l, "different points have different numbers");
      vid[l] = v;
      cls[v] = l;
      bsx_assert(list(j, k) == v, "element list");
      maxv = std::max(maxv, v);
    }
  }
  bsx_assert(k == N, "every leaf is visited");
  bsx_assert(t.get_number_of_points() == maxv + 1, "number of points");
  for (int v = 0; v <= maxv; ++v) bsx_assert(cls[v] >= 0, "no gaps in the vertex numbers");
  // adjacency: full edges
  std::map<std::pair<int, int>, std::vector<int>> edges;
  auto key = [&](int k, int j) {
    int a = node[k]->vertices_[j], b = node[k]->vertices_[(j + 1) % 4];
    return std::make_pair(std::min(a, b), std::max(a, b));
  };
  for (k = 0; k < N; ++k)
    for (int j = 0; j < 4; ++j) edges[key(k, j)].push_back(k);
  auto bl = t.generatePatchBoundaryLabels();
  for (k = 0; k < N; ++k) {
    int lab = 0, bd = 0;
    for (int j = 0; j < 4; ++j) {
      auto &e = edges[key(k, j)];
      bsx_assert(e.size() <= 2, "at most two elements meet in an edge");
      const ElementTreeNode *w = nullptr;
      for (int o : e)
        if (o != k) w = node[o];
      bsx_assert(node[k]->adjcents_[j] == w, "neighbour across an edge");
      if (!w) bd = 1;
      else lab += w->patch_ != node[k]->patch_;
    }
    bsx_assert(bl(k) == (bd ? -1 : lab), "patch boundary label");
  }
  // clusters
  std::vector<const ElementTreeNode *> cl;
  for (auto &s : t.root().sons_) cl.push_back(std::addressof(s));
  for (int l = 0; l <= level; ++l) {
    int m = N >> (2 * l) ;
    (void)m;
    std::vector<const ElementTreeNode *> next;
    const int w = 1 << (2 * (level - l));  // leaves below a node of this level
    bsx_assert((int)cl.size() * w == N, "number of clusters");
    for (size_t c = 0; c < cl.size(); ++c) {
      bsx_assert(cl[c]->id_ == (int)c && cl[c]->level_ == l, "number and level of a cluster");
      bsx_assert((int)cl[c]->sons_.size() == (l < level ? 4 : 0), "number of sons");
      int cnt = 0;
      const double hh = 1. / (1 << l);
      for (auto it = t.cluster_begin(*cl[c]); it != t.cluster_end(*cl[c]); ++it, ++cnt) {
        bsx_assert(cnt < w && it->id_ == (int)c * w + cnt, "leaves of a cluster");
        bsx_assert(it->patch_ == cl[c]->patch_ && it->llc_(0) >= cl[c]->llc_(0) && it->llc_(0) + h <= cl[c]->llc_(0) + hh && it->llc_(1) >= cl[c]->llc_(1) &&
                       it->llc_(1) + h <= cl[c]->llc_(1) + hh,
                   "leaves lie inside the cluster");
      }
      bsx_assert(cnt == w, "all leaves of a cluster");
      for (auto &s : cl[c]->sons_) next.push_back(std::addressof(s));
    }
    cl = next;
  }
  for (int p = 0; p < np; ++p) {
    auto ip = t.identifyPatch(p);
    for (k = 0; k < N; ++k) bsx_assert(ip(k) == (k / per == p), "patch indicator");
  }
  if (!pts) return;
  Eigen::VectorXi idct;
  Eigen::MatrixXd P = t.generatePointList(&idct);
  bsx_assert(P.rows() == 3 && P.cols() == maxv + 1 && idct.size() == maxv + 1, "size of the point list");
  std::vector<int> cnt(maxv + 1, 0);
  for (k = 0; k < N; ++k)
    for (int j = 0; j < 4; ++j) {
      ++cnt[list(j, k)];
      Eigen::Vector3d q = geo[k / per].eval((gx[k] + CX[j]) * h, (gy[k] + CY[j]) * h);
      bsx_equal(P(0, list(j, k)), q(0), "point list");
      bsx_assert(P(1, list(j, k)) == q(1), "point list");
    }
  for (int v = 0; v <= maxv; ++v) bsx_assert(idct(v) == cnt[v], "number of elements around a point");
}

// symbolic corner positions, different vertices lie in different unit intervals
static std::vector<Patch> geometry(const Gluing &g) {
  std::vector<double> x(g.nv);
  for (int i = 0; i < g.nv; ++i) x[i] = bsx_real(ora::nm("x", i).c_str(), 2 * i, 2 * i + 1);
  std::vector<Patch> pv;
  for (int p = 0; p < g.np; ++p) {
    Eigen::Vector3d c[4];
    for (int j = 0; j < 4; ++j) c[j] = Eigen::Vector3d(x[g.v[p][j]], 2, 1);
    pv.push_back(quad(c));
  }
  return pv;
}
// edges where more than two patches meet are outside the scope
static bool manifold(const Gluing &g) {
  std::map<std::pair<int, int>, int> e;
  for (int p = 0; p < g.np; ++p)
    for (int j = 0; j < 4; ++j) {
      int a = g.v[p][j], b = g.v[p][(j + 1) % 4];
      if (++e[std::make_pair(std::min(a, b), std::max(a, b))] > 2) return false;
    }
  return true;
}
static void run(const Gluing &g, int level, int hist, bool pts) {
  if (!manifold(g)) bsx_stop();
  std::vector<Patch> pv = geometry(g);
  Geometry geo(pv);
  ElementTree t;
  if (hist == 0) {
    t.init_ElementTree(geo, level);
  } else if (hist == 1) {
    t.init_ElementTree(geo, 0);
    for (int l = 0; l < level; ++l) {
      check(t, g, l, pv, false);
      t.refineUniformly();
    }
  } else {
    // patch after patch, in an order of choice in every sweep
    t.init_ElementTree(geo, 0);
    for (int l = 0; l < level; ++l) {
      int s = bsx_choice(ora::nm("start", l).c_str(), 0, g.np - 1), d = g.np > 2 ? bsx_choice(ora::nm("dir", l).c_str(), 0, 1) : 0;
      for (int i = 0; i < g.np; ++i) t.refinePatch((d ? s + g.np - i : s + i) % g.np);
    }
  }
  check(t, g, level, pv, pts);
  bsx_cover("end");
}
// glue the next patch to the vertices present: every injective choice
static void add(Gluing &g, int maxold) {
  int p = g.np++, old = g.nv;
  if (maxold > old) maxold = old;
  bool used[32] = {};
  for (int j = 0; j < 4; ++j) {
    int m = bsx_choice(ora::nm("glue", p, j).c_str(), -1, maxold - 1);
    if (m >= 0) {
      if (used[m]) bsx_stop();
      used[m] = true;
    } else {
      m = g.nv++;
    }
    g.v[p][j] = m;
  }
}
static Gluing first() { return Gluing{1, 4, {{0, 1, 2, 3}}}; }

//! fn=c06_two tier=quick bounds="two patches glued in each of the 209 ways, real corner positions, level 0 and 2 in one go and step by step and patch by patch" cost=60
extern "C" void c06_two() {
  int hist = bsx_choice("hist", 0, 2);
  Gluing g = first();
  add(g, 4);
  run(g, 2, hist, true);
}
//! fn=c06_two_deep tier=thorough bounds="as c06_two, level 3" cost=60 time=800
extern "C" void c06_two_deep() {
  int hist = bsx_choice("hist", 0, 2);
  Gluing g = first();
  add(g, 4);
  run(g, 3, hist, false);
}
//! fn=c06_closed tier=quick bounds="closed surface of six patches (cube), any corner of any two patches first and any orientation of them, level 0..2, all histories" cost=60
extern "C" void c06_closed() {
  int hist = bsx_choice("hist", 0, 2);
  static const int F[6][4] = {{0, 1, 2, 3}, {1, 0, 4, 5}, {2, 1, 5, 6}, {3, 2, 6, 7}, {0, 3, 7, 4}, {5, 4, 7, 6}};
  int a = bsx_choice("face", 0, 5), r = bsx_choice("rot", 0, 3), f = bsx_choice("flip", 0, 1), q = bsx_choice("first", 0, 5);
  Gluing g{6, 8, {}};
  for (int p = 0; p < 6; ++p)
    for (int j = 0; j < 4; ++j) {
      int s = (p + q) % 6;
      g.v[p][j] = F[s][s == a ? (f ? r + 4 - j : r + j) % 4 : j];
    }
  run(g, 1 + (hist == 1), hist, false);
}
//! fn=c06_three tier=thorough bounds="three patches, the second glued to an edge of the first, the third in every way to the corners present, level 1" cost=60 time=800
extern "C" void c06_three() {
  Gluing g = first();
  add(g, 4);
  bool edge = false;
  for (int a = 0; a < 4; ++a)
    for (int b = 0; b < 4; ++b) edge |= g.v[0][a] == g.v[1][(b + 1) % 4] && g.v[0][(a + 1) % 4] == g.v[1][b];
  if (!edge) bsx_stop();
  add(g, 8);
  run(g, 1, 0, false);
}
