#pragma once
#include <pcl/point_cloud.h>
#include <tf/transform_datatypes.h>
namespace pcl_ros
{
template <class P>
void transformPointCloud(const pcl::PointCloud<P> &in, pcl::PointCloud<P> &out, const tf::Transform &t)
{
  pcl::PointCloud<P> r = in;
  for (auto &p : r.points) {
    tf::Vector3 v = t * tf::Vector3(p.x, p.y, p.z);
    p.x = (float)v.x();
    p.y = (float)v.y();
    p.z = (float)v.z();
  }
  out = r;
}
}
