// The measurement queue against a list of messages with their remaining uses. mode: C14
#include "vh.hpp"
#include <deque>
#include <memory>
#include "ekf_localizer/aged_message_queue.hpp"

namespace monitor
{
void vh_case(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const int limit = static_cast<int>(r.of({1L, 2L, 3L, 5L, 0L, -1L, static_cast<long>(r.i(1, 12)), static_cast<long>(r.chance(0.01) ? r.i(200, 70000) : 1)}));
  const int uses = std::max(1, limit);
  struct Entry {int id; int left;};
  AgedMessageQueue<std::shared_ptr<int>> q(limit);
  std::deque<Entry> want;
  std::map<int, int> handed;
  int next = 0;
  std::string log = vh::fmt("count %d:", limit);
  c.mark(static_cast<uint64_t>(limit + 1));
  const bool longrun = r.chance(0.003);
  const int steps = static_cast<int>(longrun ? r.i(2000, 20000) : r.i(1, 80));
  if (longrun) {vh::count("long_histories");}
  const double p_push = r.u(0.1, 0.7), p_clear = longrun ? r.of({0., 0.0005}) : r.of({0., 0.02, 0.2});
  for (int s = 0; s < steps; s++) {
    const double what = r.u();
    if (what < p_clear) {
      if (!longrun) {log += " clear";}
      q.clear();
      want.clear();
      vh::count("clears");
    } else if (what < p_clear + p_push) {
      if (!longrun) {log += " push";}
      q.push(std::make_shared<int>(next));
      want.push_back({next++, uses});
      vh::count("pushes");
    } else if (!want.empty()) {
      if (!longrun) {log += " pop";}
      vh::note(log);
      const std::shared_ptr<int> got = q.pop();
      Entry e = want.front();
      want.pop_front();
      VH_CHECK(got && *got == e.id, "order", "message %d, expected %d", got ? *got : -1, e.id);
      handed[e.id]++;
      VH_CHECK(handed[e.id] <= uses, "too-often", "message %d", e.id);
      if (--e.left > 0) {want.push_back(e);} else {vh::count("used_up");}
      vh::count("pops");
    }
    c.mark(what);
    vh::note(log);
    VH_CHECK(q.size() == want.size(), "size", "%zu, expected %zu", q.size(), want.size());
  }
  // drain: everything that is left comes out as often as it is due
  for (int64_t drained = 0; !want.empty() && drained < 80000; drained++) {
    if (!longrun) {log += " pop";}
    vh::note(log);
    VH_CHECK(q.size() == want.size(), "size", "%zu, expected %zu", q.size(), want.size());
    const std::shared_ptr<int> got = q.pop();
    Entry e = want.front();
    want.pop_front();
    VH_CHECK(got && *got == e.id, "order", "message %d, expected %d", got ? *got : -1, e.id);
    if (--e.left > 0) {want.push_back(e);} else {vh::count("used_up");}
  }
  VH_CHECK(q.size() == want.size(), "left-over", "%zu messages", q.size());
  c.nontrivial = next > 0;
  c.desc = log;
}
}  // namespace monitor

void vh_case(vh::Case & c) {monitor::vh_case(c);}
