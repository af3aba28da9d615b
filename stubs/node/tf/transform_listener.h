// Stand-in for the tf header of the same name: the harness answers.
#pragma once
#include <tf/transform_datatypes.h>
namespace tf
{
struct StubFrames {
  // frame `source` as seen from `target`; throws when it is not known (yet)
  std::function<Transform(const std::string &target, const std::string &source, const ros::Time &)> look;
  std::function<bool(const std::string &target, const std::string &source, const ros::Time &)> wait;
  std::vector<StampedTransform> sent;
  static StubFrames &get()
  {
    static StubFrames *f = new StubFrames;
    return *f;
  }
};
class TransformListener
{
public:
  bool waitForTransform(const std::string &target, const std::string &source, const ros::Time &t, const ros::Duration &, const ros::Duration & = ros::Duration(0.01)) const
  {
    return StubFrames::get().wait(target, source, t);
  }
  void lookupTransform(const std::string &target, const std::string &source, const ros::Time &t, StampedTransform &out) const
  {
    out = StampedTransform(StubFrames::get().look(target, source, t), t, target, source);
  }
};
}
