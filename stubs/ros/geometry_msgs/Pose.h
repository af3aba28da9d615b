#pragma once
#include <geometry_msgs/Point.h>
namespace geometry_msgs
{
struct Pose {
  Point position;
  Quaternion orientation;
};
}
