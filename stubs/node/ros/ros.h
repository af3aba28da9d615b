// Stand-in for the ROS header of the same name: node handles and topics.
#pragma once
#include_next <ros/ros.h>
#include <stub_bus.h>
typedef unsigned int uint;
namespace ros
{
struct Duration {
  double s;
  explicit Duration(double d) : s(d)
  {
  }
};
class Subscriber
{
};
class Publisher
{
  std::string topic_;

public:
  Publisher()
  {
  }
  explicit Publisher(const std::string &t) : topic_(t)
  {
  }
  template <class M>
  void publish(const M &m) const
  {
    StubBus::get().outputs.push_back({topic_, boost::any(m)});
  }
  template <class M>
  void publish(const boost::shared_ptr<M> &m) const
  {
    // what is sent is what the message holds now
    StubBus::get().outputs.push_back({topic_, boost::any(M(*m))});
  }
};
class NodeHandle
{
  std::string ns_;

public:
  explicit NodeHandle(const std::string &ns = "") : ns_(ns == "~" ? "/slam/node/" : "/slam/")
  {
  }
  std::string full(const std::string &n) const
  {
    return n.size() && n[0] == '/' ? n : ns_ + n;
  }
  template <class M>
  Publisher advertise(const std::string &topic, uint32_t, bool = false)
  {
    StubBus::get().advertised.insert({full(topic), std::type_index(typeid(M))});
    return Publisher(full(topic));
  }
  template <class M>
  Subscriber subscribe(const std::string &topic, uint32_t, const boost::function<void(const boost::shared_ptr<const M> &)> &f)
  {
    StubBus::get().inputs.push_back({{full(topic)}, {std::type_index(typeid(M))}, [f](const std::vector<StubBus::Msg> &m) { f(boost::static_pointer_cast<const M>(m[0])); }});
    return Subscriber();
  }
  template <class T>
  bool getParam(const std::string &n, T &v) const
  {
    auto it = StubBus::get().params.find(full(n));
    const T *p = it == StubBus::get().params.end() ? nullptr : boost::any_cast<T>(&it->second);
    if (p)
      v = *p;
    return p;
  }
  template <class T>
  T param(const std::string &n, const T &def) const
  {
    T v = def;
    getParam(n, v);
    return v;
  }
  template <class T>
  bool param(const std::string &n, T &v, const T &def) const
  {
    v = def;
    return getParam(n, v);
  }
  bool hasParam(const std::string &n) const
  {
    return StubBus::get().params.count(full(n));
  }
  // the nearest parameter of that name on the way up
  bool searchParam(const std::string &n, std::string &res) const
  {
    for (std::string at = ns_; !at.empty();) {
      if (StubBus::get().params.count(at + n)) {
        res = at + n;
        return true;
      }
      if (at == "/")
        break;
      at.pop_back();
      at = at.substr(0, at.rfind('/') + 1);
    }
    return false;
  }
};
inline void init(int &, char **, const std::string &)
{
}
inline void spin()
{
  if (StubBus::get().spin)
    StubBus::get().spin();
}
}
#ifndef ROS_ERROR
#define ROS_ERROR(...)
#define ROS_WARN(...)
#endif
