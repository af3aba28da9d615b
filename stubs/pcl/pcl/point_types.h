// Stand-in for the PCL header of the same name: data containers only.
#pragma once
#include <cstdint>
#include <Eigen/Core>
namespace pcl
{
struct PointXYZ {
  float x, y, z;
  PointXYZ() : x(0), y(0), z(0)
  {
  }
  PointXYZ(float a, float b, float c) : x(a), y(b), z(c)
  {
  }
  Eigen::Vector3f getVector3fMap() const
  {
    return Eigen::Vector3f(x, y, z);
  }
};
struct PointXYZRGB {
  float x, y, z;
  uint8_t r, g, b;
  PointXYZRGB() : x(0), y(0), z(0), r(0), g(0), b(0)
  {
  }
  PointXYZRGB(uint8_t R, uint8_t G, uint8_t B) : x(0), y(0), z(0), r(R), g(G), b(B)
  {
  }
};
}
