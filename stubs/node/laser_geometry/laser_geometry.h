// Stand-in: as there, readings outside of the range of the sensor are left out.
#pragma once
#include <sensor_msgs/LaserScan.h>
#include <sensor_msgs/PointCloud2.h>
namespace laser_geometry
{
class LaserProjection
{
public:
  void projectLaser(const sensor_msgs::LaserScan &s, sensor_msgs::PointCloud2 &out, double cutoff = -1.0, int = 7)
  {
    out = sensor_msgs::PointCloud2();
    out.header = s.header;
    if (cutoff < 0)
      cutoff = s.range_max;
    for (size_t i = 0; i < s.ranges.size(); ++i) {
      float r = s.ranges[i];
      if (!(r < cutoff && r >= s.range_min))
        continue;
      double a = s.angle_min + (double)i * s.angle_increment;
      out.xyz.push_back((float)(r * std::cos(a)));
      out.xyz.push_back((float)(r * std::sin(a)));
      out.xyz.push_back(0);
    }
  }
};
}
