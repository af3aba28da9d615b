#pragma once
#include <tf/transform_datatypes.h>
#include <Eigen/Geometry>
namespace tf
{
inline void transformTFToEigen(const Transform &t, Eigen::Affine3d &e)
{
  e = Eigen::Affine3d::Identity();
  for (int i = 0; i < 3; ++i) {
    e.matrix()(i, 3) = t.getOrigin().m[i];
    for (int j = 0; j < 3; ++j)
      e.matrix()(i, j) = t.getBasis().m[i][j];
  }
}
}
