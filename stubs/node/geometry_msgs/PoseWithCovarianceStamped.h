#pragma once
#include <geometry_msgs/Pose.h>
#include <ros/ros.h>
namespace geometry_msgs
{
struct PoseWithCovariance {
  Pose pose;
  boost::array<double, 36> covariance{};
};
struct PoseWithCovarianceStamped {
  typedef boost::shared_ptr<PoseWithCovarianceStamped> Ptr;
  typedef boost::shared_ptr<const PoseWithCovarianceStamped> ConstPtr;
  std_msgs::Header header;
  PoseWithCovariance pose;
};
}
