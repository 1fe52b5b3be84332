// C14: conforming gluing of patches
#include "ops.h"
#include <map>
#include <set>
using namespace Bembel;
//! flags=
typedef std::array<int, 4> Quad;

static Geometry surface(const std::vector<Quad> &f, const std::vector<Eigen::Vector3d> &x) {
  std::vector<Patch> pv;
  for (auto &q : f) {
    Eigen::Vector3d c[4];
    for (int j = 0; j < 4; ++j) c[j] = x[q[j]];
    pv.push_back(quad(c));
  }
  return Geometry(pv);
}
static std::vector<Eigen::Vector3d> points(int n) {
  std::vector<Eigen::Vector3d> x;
  for (int i = 0; i < n; ++i) x.push_back(Eigen::Vector3d(i, (i * i) % 7, (3 * i) % 5));
  return x;
}
static Quad rot(const Quad &q, int r) { return Quad{{q[r % 4], q[(r + 1) % 4], q[(r + 2) % 4], q[(r + 3) % 4]}}; }
// reference point and outward component of the boundary parameter s on edge k
static void edgePoint(int k, double s, double &x, double &y) {
  x = k == 0 ? s : k == 1 ? 1 : k == 2 ? 1 - s : 0;
  y = k == 0 ? 0 : k == 1 ? s : k == 2 ? 1 : 1 - s;
}
// value of component q of the function with elementwise coefficients e at the
// point with boundary parameter (j+sigma)/n on edge k of patch p; the sub
// intervals are counted along the boundary
template <class Op>
static double trace(const SuperSpace<Op> &sp, const std::vector<double> &e, int p, int q, int k, int j, double sigma) {
  const int P = sp.get_polynomial_degree(), n = 1 << sp.get_refinement_level(), loc = (P + 1) * (P + 1);
  const ElementTree &et = sp.get_mesh().get_element_tree();
  double mx, my, x, y;
  edgePoint(k, (j + .5) / n, mx, my);
  const int ix = std::min(n - 1, (int)std::floor(mx * n)), iy = std::min(n - 1, (int)std::floor(my * n));
  edgePoint(k, sigma, x, y);
  for (auto it = et.pbegin(); it != et.pend(); ++it)
    if (it->patch_ == p && (int)std::floor(it->llc_(0) * n + .5) == ix && (int)std::floor(it->llc_(1) * n + .5) == iy) {
      const double *c = e.data() + q * et.get_number_of_elements() * loc + it->id_ * loc;
      double v = 0;
      // only one variable is free on an edge
      for (int b = 0; b <= P; ++b)
        for (int a = 0; a <= P; ++a) {
          const bool onx = k == 0 || k == 2;
          if (onx && b != (k == 0 ? 0 : P)) continue;
          if (!onx && a != (k == 3 ? 0 : P)) continue;
          v += c[b * (P + 1) + a] * (onx ? ora::bern(P, a, x) : ora::bern(P, b, y));
        }
      return v;
    }
  bsx_assert(false, "element at the edge");
  return 0;
}
static int find(std::vector<int> &u, int i) {
  while (u[i] != i) i = u[i];
  return i;
}
// conformity of every function of the space
template <class Op>
static void conform(const std::vector<Quad> &f, const std::vector<Eigen::Vector3d> &x, int P, int M, int rep, bool div, bool check_traces = true) {
  Geometry geo = surface(f, x);
  AnsatzSpace<Op> as(geo, M, P, rep);
  const Eigen::SparseMatrix<double> &T = as.get_transformation_matrix();
  const int n = 1 << M, np = f.size(), m = P + 1 + rep * (n - 1), s = m - 1;
  // interfaces of the surface and classes of patch corners connected through
  // interfaces
  std::vector<std::array<int, 4>> inter;
  std::vector<int> u(4 * np);
  for (int i = 0; i < 4 * np; ++i) u[i] = i;
  for (int a = 0; a < np; ++a)
    for (int b = a + 1; b < np; ++b)
      for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 4; ++j)
          if (f[a][i] == f[b][(j + 1) % 4] && f[a][(i + 1) % 4] == f[b][j]) {
            inter.push_back({{a, b, i, j}});
            u[find(u, 4 * a + i)] = find(u, 4 * b + (j + 1) % 4);
            u[find(u, 4 * a + (i + 1) % 4)] = find(u, 4 * b + j);
          }
  int vert = 0;
  for (int i = 0; i < 4 * np; ++i) vert += find(u, i) == i;
  const int edges = 4 * np - (int)inter.size();
  const int dim = div ? np * 2 * s * (m - 2) + edges * s : np * (m - 2) * (m - 2) + edges * (m - 2) + vert;
  bsx_assert(as.get_number_of_dofs() == dim && T.cols() == dim, "dimension of the conforming space");
  {
    SuperSpace<Op> sp(geo, M, P);
    Projector<Op> proj(sp, rep);
    Glue<Op> glue(sp, proj);
    Eigen::SparseMatrix<double> G = glue.get_glue_matrix();
    std::vector<int> rows(G.rows(), 0);
    bool ok = G.rows() == proj.get_dofs_after_projector() && G.cols() == dim;
    for (int k = 0; k < G.outerSize(); ++k) {
      int cnt = 0;
      for (Eigen::SparseMatrix<double>::InnerIterator it(G, k); it; ++it) {
        ok = ok & (it.value() == 1 || (div && it.value() == -1));
        ++rows[it.row()];
        ++cnt;
      }
      ok = ok & (cnt >= 1);
    }
    for (int r : rows) ok = ok & (r == 1);
    bsx_assert(ok, "every function of a patch belongs to exactly one global function");
  }
  if (!check_traces) return;
  std::vector<double> c(dim), e(T.rows(), 0.);
  for (int i = 0; i < dim; ++i) c[i] = bsx_real(ora::nm("c", i).c_str(), -1, 1);
  for (int k = 0; k < T.outerSize(); ++k)
    for (Eigen::SparseMatrix<double>::InnerIterator it(T, k); it; ++it) e[it.row()] += it.value() * c[it.col()];
  double sigma = bsx_real("sigma", 0, 1);
  for (auto &l : inter)
    for (int j = 0; j < n; ++j) {
      if (!div) {
        bsx_close(trace(as.get_superspace(), e, l[0], 0, l[2], j, sigma), trace(as.get_superspace(), e, l[1], 0, l[3], n - 1 - j, 1 - sigma), 1e-8,
                  "continuous across the interface");
      } else {
        double fl[2];
        for (int w = 0; w < 2; ++w) {
          const int k = l[2 + w];
          fl[w] = trace(as.get_superspace(), e, l[w], k % 2 ? 0 : 1, k, w ? n - 1 - j : j, w ? 1 - sigma : sigma) * (k == 0 || k == 3 ? -1 : 1);
        }
        bsx_close(fl[0] + fl[1], 0., 1e-8, "normal flux is continuous across the interface");
      }
    }
}
//! fn=c14_two_cont tier=quick bounds="two patches, all 16 pairings of edges, degree 1..3, level 0..2, knot repetition 1..degree, every coefficient vector, every interface point" cost=60
extern "C" void c14_two_cont() {
  int P = bsx_choice("P", 1, 3), M = bsx_choice("M", 0, 2), rep = bsx_choice("rep", 1, 3);
  if (rep > P || P + M > 4) bsx_stop();
  int r0 = bsx_choice("r0", 0, 3), r1 = bsx_choice("r1", 0, 3);
  conform<ContOp>({rot({{0, 1, 2, 3}}, r0), rot({{1, 4, 5, 2}}, r1)}, points(6), P, M, rep, false);
  bsx_cover("end");
}
//! fn=c14_two_div tier=quick bounds="two patches, all 16 pairings of edges, degree 1..3, level 0..2, knot repetition 1..degree, every coefficient vector, every interface point" cost=60
extern "C" void c14_two_div() {
  int P = bsx_choice("P", 1, 3), M = bsx_choice("M", 0, 2), rep = bsx_choice("rep", 1, 3);
  if (rep > P || P + M > 4) bsx_stop();
  int r0 = bsx_choice("r0", 0, 3), r1 = bsx_choice("r1", 0, 3);
  conform<DivOp>({rot({{0, 1, 2, 3}}, r0), rot({{1, 4, 5, 2}}, r1)}, points(6), P, M, rep, true);
  bsx_cover("end");
}
static std::vector<Quad> fan(int D) {
  std::vector<Quad> f;
  for (int i = 0; i < D; ++i) f.push_back(Quad{{0, 1 + 2 * i, 2 + 2 * i, 1 + 2 * ((i + 1) % D)}});
  return f;
}
// reorders and rotates the patches
static std::vector<Quad> shuffle(std::vector<Quad> f, int D) {
  for (int i = 0; i + 1 < D; ++i) {
    int j = bsx_choice(ora::nm("pos", i).c_str(), i, D - 1);
    std::swap(f[i], f[j]);
  }
  return f;
}
//! fn=c14_fan_cont tier=quick bounds="3..5 patches around a vertex in every order, degree 1..2, level 0..1, every coefficient vector, every interface point" cost=60
extern "C" void c14_fan_cont() {
  int P = bsx_choice("P", 1, 2), M = bsx_choice("M", 0, 1), D = bsx_choice("D", 3, 5);
  if (P + M > 2) bsx_stop();
  std::vector<Quad> f = shuffle(fan(D), D);
  for (int i = 0; i < D; ++i) f[i] = rot(f[i], i * i);
  conform<ContOp>(f, points(2 * D + 1), P, M, 1, false);
  bsx_cover("end");
}
static std::vector<Quad> cube() {
  return {{{0, 3, 2, 1}}, {{4, 5, 6, 7}}, {{0, 1, 5, 4}}, {{1, 2, 6, 5}}, {{2, 3, 7, 6}}, {{3, 0, 4, 7}}};
}
//! fn=c14_cube tier=quick bounds="closed surface of six patches, rotations of the patches from a family of 64, degree 1..2, level 0..1, both spaces, every coefficient vector, every interface point" cost=60
extern "C" void c14_cube() {
  int P = bsx_choice("P", 1, 2), M = bsx_choice("M", 0, 1), R = bsx_choice("R", 0, 15), div = bsx_choice("div", 0, 1);
  std::vector<Quad> f = cube();
  for (int i = 0; i < 6; ++i) f[i] = rot(f[i], (R % 4) * i + (R / 4) * (i / 2));
  if (div) conform<DivOp>(f, points(8), P, M, 1, true);
  else conform<ContOp>(f, points(8), P, M, 1, false);
  bsx_cover("end");
}
//! fn=c14_hubs tier=quick bounds="eight patches around an interface whose ends belong to five patches each, 40 orders of the patches, degree 1..2, every coefficient vector, every interface point" cost=60
extern "C" void c14_hubs() {
  // vertices 0 and 1 are the hubs
  std::vector<Quad> f = {{{0, 1, 2, 3}}, {{1, 0, 4, 5}}, {{0, 3, 6, 7}}, {{0, 7, 8, 9}}, {{0, 9, 10, 4}}, {{1, 5, 11, 12}}, {{1, 12, 13, 14}}, {{1, 14, 15, 2}}};
  int P = bsx_choice("P", 1, 2), a = bsx_choice("a", 0, 7), b = bsx_choice("b", 0, 4);
  std::vector<Quad> g;
  int st[] = {1, 3, 5, 7, 1};
  for (int i = 0; i < 8; ++i) g.push_back(f[(a + i * st[b]) % 8]);
  if (b == 4) std::swap(g[0], g[4]);
  conform<ContOp>(g, points(16), P, 0, 1, false);
  bsx_cover("end");
}
//! fn=c14_disc tier=quick bounds="two adjacent patches, degree 0..2, level 0..1: nothing is glued"
extern "C" void c14_disc() {
  int P = bsx_choice("P", 0, 2), M = bsx_choice("M", 0, 1), rep = bsx_choice("rep", 1, 2);
  if (rep > P + 1) bsx_stop();
  Geometry geo = surface({Quad{{0, 1, 2, 3}}, Quad{{1, 4, 5, 2}}}, points(6));
  AnsatzSpace<DiscOp> as(geo, M, P, rep);
  SuperSpace<DiscOp> sp(geo, M, P);
  Projector<DiscOp> proj(sp, rep);
  const int m = P + 1 + rep * ((1 << M) - 1);
  bsx_assert(as.get_number_of_dofs() == 2 * m * m, "dimension of the broken space");
  Eigen::SparseMatrix<double> D = as.get_transformation_matrix() - proj.get_projection_matrix();
  bsx_assert(D.norm() == 0, "broken space is the union of the patchwise spaces");
  bsx_cover("end");
}
