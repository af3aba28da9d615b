#pragma once
#include <ros/ros.h>
namespace message_filters
{
template <class M>
class Subscriber
{
public:
  typedef M Message;
  std::string topic;
  void subscribe(ros::NodeHandle &n, const std::string &t, uint32_t)
  {
    topic = n.full(t);
  }
};
}
