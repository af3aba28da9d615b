// Stand-in for the PCL header of the same name.
#pragma once
#include <pcl/point_cloud.h>
#include <Eigen/Core>
namespace pcl
{
template <typename P, typename S>
void transformPointCloud(const PointCloud<P> &in, PointCloud<P> &out, const Eigen::Matrix<S, 4, 4> &t)
{
  if (&in != &out)
    out = in;
  for (size_t i = 0; i < out.points.size(); ++i) {
    Eigen::Matrix<S, 4, 1> v(in.points[i].x, in.points[i].y, in.points[i].z, 1);
    if (std::isnan(in.points[i].x) || std::isnan(in.points[i].y) || std::isnan(in.points[i].z))
      continue;
    Eigen::Matrix<S, 4, 1> r = t * v;
    out.points[i].x = (float)r(0);
    out.points[i].y = (float)r(1);
    out.points[i].z = (float)r(2);
  }
}
}
