// Patches and reference maps used by several harnesses.
#pragma once
#include "common.h"
#include <Bembel/Geometry>
typedef std::vector<double> DV;
// bilinear patch through four corners; corner order (0,0) (1,0) (1,1) (0,1)
inline Bembel::Patch quad(const Eigen::Vector3d *c) {
  Bembel::Patch P;
  P.polynomial_degree_x_ = P.polynomial_degree_y_ = 2;
  P.unique_knots_x_ = {0, 1};
  P.unique_knots_y_ = {0, 1};
  const int o[] = {0, 3, 1, 2};  // x-major storage
  for (int i = 0; i < 4; ++i) {
    for (int k = 0; k < 3; ++k) P.data_.push_back(c[o[i]](k));
    P.data_.push_back(1);
  }
  return P;
}
// parameter coordinates of the four corners
static const double CX[4] = {0, 1, 1, 0}, CY[4] = {0, 0, 1, 1};
