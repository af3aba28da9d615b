// What the stand-ins for ROS have in common: parameters, connections between
// topics and callbacks, what was published, and the frames tf knows. The
// harness plays the rest of the world.
#pragma once
#include <boost/any.hpp>
#include <boost/array.hpp>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <boost/shared_ptr.hpp>
#include <functional>
#include <map>
#include <string>
#include <typeindex>
#include <typeinfo>
#include <vector>
struct StubBus {
  typedef boost::shared_ptr<const void> Msg;
  std::map<std::string, boost::any> params;  // by absolute name
  struct Input {
    std::vector<std::string> topics;
    std::vector<std::type_index> types;
    std::function<void(const std::vector<Msg> &)> call;
  };
  std::vector<Input> inputs;
  struct Output {
    std::string topic;
    boost::any msg;
  };
  std::vector<Output> outputs;
  std::map<std::string, std::type_index> advertised;
  std::function<void()> spin;
  static StubBus &get()
  {
    static StubBus *b = new StubBus;
    return *b;
  }
  static void reset()
  {
    get() = StubBus();
  }
};
