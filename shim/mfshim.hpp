// Stand-in for message_filters: Subscriber, Synchronizer and the ExactTime policy for two topics.
#ifndef VERIF_MFSHIM_HPP_
#define VERIF_MFSHIM_HPP_
#include "rosshim.hpp"
namespace message_filters
{
template<typename M>
class Subscriber
{
public:
  template<typename NodeT>
  Subscriber(NodeT node, const std::string & topic, const rmw_qos_profile_t q = rmw_qos_profile_default)
  : state_(std::make_shared<State>())
  {
    auto s = state_;
    shim::subscribe<M>(
      node->get_name(), topic, {q.reliable, q.transient_local, q.keep_all, q.depth},
      [s](std::shared_ptr<const void> p) {
        auto m = std::static_pointer_cast<const M>(p);
        const auto fs = s->callbacks;
        for (const auto & f : fs) {f(m);}
      });
  }
  Subscriber(const Subscriber &) = delete;
  ~Subscriber() {state_->callbacks.clear();}
  template<typename F>
  void registerCallback(F f) {state_->callbacks.push_back(f);}

private:
  struct State {std::vector<std::function<void(std::shared_ptr<const M>)>> callbacks;};
  std::shared_ptr<State> state_;
};

namespace sync_policies
{
template<typename M0, typename M1>
class ExactTime
{
public:
  using A = M0;
  using B = M1;
  explicit ExactTime(uint32_t queue_size) : queue_size_(queue_size) {}
  uint32_t queue_size_;
};
}  // namespace sync_policies

template<typename Policy>
class Synchronizer
{
  using A = typename Policy::A;
  using B = typename Policy::B;
  struct State
  {
    uint32_t queue_size;
    std::map<builtin_interfaces::msg::Time,
      std::pair<std::shared_ptr<const A>, std::shared_ptr<const B>>> tuples;
    std::vector<std::function<void(std::shared_ptr<const A>, std::shared_ptr<const B>)>> callbacks;
    void check(const builtin_interfaces::msg::Time & t)
    {
      auto & tuple = tuples[t];
      if (tuple.first && tuple.second) {
        const auto full = tuple;
        const auto fs = callbacks;
        for (const auto & f : fs) {f(full.first, full.second);}
        // as in message_filters: everything up to the signalled stamp is dropped
        tuples.erase(tuples.begin(), tuples.upper_bound(t));
      }
      if (queue_size > 0) {
        while (tuples.size() > queue_size) {tuples.erase(tuples.begin());}
      }
    }
  };

public:
  template<typename F0, typename F1>
  Synchronizer(const Policy & p, F0 & f0, F1 & f1)
  : state_(std::make_shared<State>())
  {
    state_->queue_size = p.queue_size_;
    auto s = state_;
    f0.registerCallback(
      [s](std::shared_ptr<const A> m) {s->tuples[m->header.stamp].first = m; s->check(m->header.stamp);});
    f1.registerCallback(
      [s](std::shared_ptr<const B> m) {s->tuples[m->header.stamp].second = m; s->check(m->header.stamp);});
  }
  template<typename F>
  void registerCallback(F f) {state_->callbacks.push_back(f);}

private:
  std::shared_ptr<State> state_;
};
}  // namespace message_filters
#endif  // VERIF_MFSHIM_HPP_
