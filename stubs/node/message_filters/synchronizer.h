// Stand-in: the harness decides which messages belong together.
#pragma once
#include <message_filters/subscriber.h>
namespace message_filters
{
template <class P>
class Synchronizer
{
  typedef typename P::First A;
  typedef typename P::Second B;
  Subscriber<A> *a_ = nullptr;
  Subscriber<B> *b_ = nullptr;

public:
  explicit Synchronizer(const P &)
  {
  }
  void connectInput(Subscriber<A> &a, Subscriber<B> &b)
  {
    a_ = &a;
    b_ = &b;
  }
  template <class F>
  void registerCallback(const F &bound)
  {
    boost::function<void(const boost::shared_ptr<const A> &, const boost::shared_ptr<const B> &)> f(bound);
    if (a_)
      StubBus::get().inputs.push_back({{a_->topic, b_->topic}, {std::type_index(typeid(A)), std::type_index(typeid(B))}, [f](const std::vector<StubBus::Msg> &m) { f(boost::static_pointer_cast<const A>(m[0]), boost::static_pointer_cast<const B>(m[1])); }});
  }
};
}
