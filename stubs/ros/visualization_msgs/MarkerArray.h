#pragma once
#include <geometry_msgs/Pose.h>
#include <std_msgs/ColorRGBA.h>
#include <array>
namespace visualization_msgs
{
struct Marker {
  enum { ARROW = 0, CUBE = 1, SPHERE = 2, LINE_STRIP = 4, LINE_LIST = 5 };
  enum { ADD = 0, DELETE = 2 };
  std_msgs::Header header;
  std::string ns;
  int32_t id = 0, type = 0, action = 0;
  geometry_msgs::Pose pose;
  geometry_msgs::Vector3 scale;
  std_msgs::ColorRGBA color;
  std::vector<geometry_msgs::Point> points;
  std::vector<std_msgs::ColorRGBA> colors;
};
struct MarkerArray {
  std::vector<Marker> markers;
};
}
