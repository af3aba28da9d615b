#pragma once
#include <ros/ros.h>
namespace sensor_msgs
{
struct PointCloud2 {
  std_msgs::Header header;
  std::vector<float> xyz;
};
}
