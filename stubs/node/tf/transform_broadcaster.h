#pragma once
#include <tf/transform_listener.h>
namespace tf
{
class TransformBroadcaster
{
public:
  void sendTransform(const StampedTransform &t)
  {
    StubFrames::get().sent.push_back(t);
  }
};
}
