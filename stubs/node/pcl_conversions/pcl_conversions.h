#pragma once
#include <pcl/point_cloud.h>
#include <sensor_msgs/PointCloud2.h>
namespace pcl
{
template <class P>
void fromROSMsg(const sensor_msgs::PointCloud2 &m, PointCloud<P> &c)
{
  c = PointCloud<P>();
  c.header.frame_id = m.header.frame_id;
  for (size_t i = 0; i + 2 < m.xyz.size(); i += 3)
    c.push_back(P(m.xyz[i], m.xyz[i + 1], m.xyz[i + 2]));
}
template <class P>
void moveFromROSMsg(sensor_msgs::PointCloud2 &m, PointCloud<P> &c)
{
  fromROSMsg(m, c);
  m.xyz.clear();
}
}
