// The store of stamped objects: sequential histories against a sorted list, concurrent histories by a search for a
// sequential order of the calls that explains every result. mode: C22 (built with ASan/UBSan and with TSan)
#include "vh.hpp"
#include <sched.h>
#include <algorithm>
#include <atomic>
#include <memory>
#include <thread>
#include <tuple>
#include <Eigen/Geometry>
#include "lidar_feature_localization/stamp_sorted_objects.hpp"

namespace monitor
{
// An object whose copies take time and show when they are torn
static thread_local uint64_t delay_state = 0;      // 0: no delays
static void maybe_wait()
{
  if (delay_state == 0) {return;}
  delay_state = vh::mix64(delay_state) | 1;
  const unsigned k = (delay_state >> 20) % 8;
  if (k == 0) {sched_yield();}
  for (volatile unsigned i = 0; i < (k < 5 ? 0u : 40u * k); i = i + 1) {}
}
struct Obj
{
  int id = -1;
  std::vector<int> body;
  Obj() {}
  explicit Obj(int i) : id(i), body(5, i) {}
  Obj(const Obj & o) : id(o.id) {maybe_wait(); body = o.body;}
  Obj & operator=(const Obj & o) {id = o.id; maybe_wait(); body = o.body; return *this;}
  bool whole() const {return body == std::vector<int>(id < 0 ? 0 : 5, id);}
};

using Model = std::map<double, int>;
// the stamp closest to the query, the later one on a tie
static double closest(const Model & m, double q)
{
  bool any = false;
  double best = 0;
  long double dist = 0;
  for (const auto & kv : m) {     // ascending, so an equal distance later on is the later stamp
    const long double d = std::abs(static_cast<long double>(kv.first) - static_cast<long double>(q));
    if (!any || d <= dist) {any = true; best = kv.first; dist = d;}
  }
  return best;
}
static void trim(Model & m, double t)
{
  for (auto it = m.begin(); it != m.end(); ) {it = it->first > t ? m.erase(it) : std::next(it);}
}

static void sequential(vh::Case & c)
{
  vh::Rng & r = c.rng;
  StampSortedObjects<Obj> store;
  Model want;
  // stamps on a grid on which all differences are exact: small numbers, seconds, nanoseconds since the epoch
  const double base = r.of({0., 0., -7., 1e9, 1700000000. * 1e9}), unit = base > 1e17 ? 1024. * static_cast<double>(r.i(1, 100000)) : r.of({1., 0.5, 64.});
  const bool lengthy = r.chance(0.03);
  const int spread = static_cast<int>(lengthy ? r.of({100, 1000, 5000}) : r.of({3, 10, 100}));
  auto stamp = [&]() {return base + unit * static_cast<double>(r.i(-spread, spread));};
  const int steps = static_cast<int>(lengthy ? r.i(300, 4000) : r.i(1, 60));
  const double p_trim = lengthy ? r.of({0., 0.001, 0.02}) : r.of({0., 0.05, 0.3}), p_insert = r.u(0.1, 0.8);
  std::string log;
  int next = 0;
  c.mark(base); c.mark(unit);
  for (int s = 0; s < steps; s++) {
    const double what = r.u(), t = r.chance(0.05) ? base + r.sign() * 1e6 * unit : stamp();
    c.mark(what); c.mark(t);
    if (what < p_trim) {
      log += vh::fmt(" trim %.17g", t);
      vh::note(log);
      const size_t before = want.size();
      trim(want, t);
      store.RemoveOlderThan(t);
      vh::count("trims");
      if (want.size() < before) {vh::count("trims_removing");}
      if (want.empty()) {vh::count("trims_to_nothing");}
    } else if (what < p_trim + p_insert * (1 - p_trim)) {
      log += vh::fmt(" insert %.17g=%d", t, next);
      vh::note(log);
      if (want.count(t)) {vh::count("replaced");}
      want[t] = next;
      {
        const Obj o(next++);
        store.Insert(t, o);
      }
      vh::count("inserts");
    } else if (!want.empty()) {
      const double q = r.chance(0.3) ? t + unit / 2 : t;
      log += vh::fmt(" get %.17g", q);
      vh::note(log);
      const auto got = store.GetClosest(q);
      const double w = closest(want, q);
      VH_CHECK(std::get<0>(got) == w, "closest", "stamp %.17g, expected %.17g", std::get<0>(got), w);
      VH_CHECK(std::get<1>(got).id == want[w] && std::get<1>(got).whole(), "object", "object %d, expected %d", std::get<1>(got).id, want[w]);
      vh::count("lookups");
      if (want.count(2 * q - w) && w != q) {vh::count("ties");}
    }
    VH_CHECK(store.Size() == want.size(), "size", "%zu, expected %zu", store.Size(), want.size());
  }
  if (want.size() > 256) {vh::count("many_held");}
  // whatever is held must come back
  for (const auto & kv : want) {
    const auto got = store.GetClosest(kv.first);
    VH_CHECK(std::get<0>(got) == kv.first && std::get<1>(got).id == kv.second, "held", "%.17g: %.17g with %d, expected %d", kv.first, std::get<0>(got), std::get<1>(got).id, kv.second);
  }
  c.nontrivial = next > 0;
  c.desc = log;
}

// the objects the localization node stores
static void poses(vh::Case & c)
{
  vh::Rng & r = c.rng;
  StampSortedObjects<Eigen::Isometry3d> store;
  std::map<double, Eigen::Matrix4d> want;
  for (int i = 0; i < 10; i++) {
    Eigen::Isometry3d p = Eigen::Isometry3d::Identity();
    p.linear() = Eigen::Quaterniond(r.n(), r.n(), r.n(), r.n()).normalized().toRotationMatrix();
    p.translation() = Eigen::Vector3d(r.n(), r.n(), r.n());
    const double t = static_cast<double>(r.i(0, 8));
    store.Insert(t, p);
    want[t] = p.matrix();
    const auto got = store.GetClosest(t);
    VH_CHECK(std::get<0>(got) == t && std::get<1>(got).matrix() == want[t], "pose", "not the pose stored at %g", t);
  }
  VH_CHECK(store.Size() == want.size(), "size", "%zu", store.Size());
  vh::count("poses");
}

struct Op
{
  int kind = 0;               // 0 insert, 1 get, 2 size, 3 trim
  double t = 0;
  int id = 0;
  double got_t = 0;
  int got = 0;
  bool whole = true;
  uint64_t begin = 0, end = 0;
  std::string str() const
  {
    const char * n[] = {"insert", "get", "size", "trim"};
    return vh::fmt("[%llu-%llu] %s(%g%s)%s", static_cast<unsigned long long>(begin), static_cast<unsigned long long>(end), n[kind], t,
             kind == 0 ? vh::fmt(", %d", id).c_str() : "", kind == 1 ? vh::fmt(" = %g:%d", got_t, got).c_str() : kind == 2 ? vh::fmt(" = %d", got).c_str() : "");
  }
};
// Is there a sequential order, respecting who ended before whom began, that gives every result?
struct Search
{
  const std::vector<Op> & ops;
  std::set<std::pair<uint64_t, Model>> seen;
  uint64_t full;
  explicit Search(const std::vector<Op> & o) : ops(o), full((uint64_t(1) << o.size()) - 1) {}
  bool from(uint64_t done, const Model & m)
  {
    if (done == full) {return true;}
    if (!seen.insert({done, m}).second) {return false;}
    uint64_t first_end = ~uint64_t(0);
    for (size_t i = 0; i < ops.size(); i++) {if (!(done >> i & 1)) {first_end = std::min(first_end, ops[i].end);}}
    for (size_t i = 0; i < ops.size(); i++) {
      if ((done >> i & 1) || ops[i].begin > first_end) {continue;}
      const Op & o = ops[i];
      Model n = m;
      if (o.kind == 0) {n[o.t] = o.id;
      } else if (o.kind == 1) {
        const double w = closest(m, o.t);
        if (w != o.got_t || m.at(w) != o.got) {continue;}
      } else if (o.kind == 2) {
        if (static_cast<int>(m.size()) != o.got) {continue;}
      } else {trim(n, o.t);}
      if (from(done | uint64_t(1) << i, n)) {return true;}
    }
    return false;
  }
};

static void concurrent(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const int threads = static_cast<int>(r.i(2, 4)), per = static_cast<int>(r.i(2, 20 / threads));
  const int rounds = 12;
  const double p_get = r.u(0.1, 0.6), p_trim = r.of({0.05, 0.2, 0.4});
  for (int round = 0; round < rounds; round++) {
    StampSortedObjects<Obj> store;
    Model initial;
    const int held = static_cast<int>(r.i(0, 6));
    int id = 0;
    store.Insert(-1000., Obj(id));       // an entry no trim of the history reaches
    initial[-1000.] = id++;
    for (int i = 0; i < held; i++) {
      const double t = static_cast<double>(r.i(0, 8));
      store.Insert(t, Obj(id));
      initial[t] = id++;
    }
    std::vector<std::vector<Op>> plan(threads, std::vector<Op>(per));
    std::vector<uint64_t> seeds;
    for (auto & p : plan) {
      for (auto & o : p) {
        const double u = r.u();
        o.kind = u < p_get ? 1 : u < p_get + p_trim * (1 - p_get) ? 3 : r.chance(0.15) ? 2 : 0;
        o.t = static_cast<double>(r.i(o.kind == 3 ? -1 : 0, 8)) + (o.kind == 1 && r.chance(0.3) ? 0.5 : 0.);
        o.id = o.kind == 0 ? id++ : 0;
      }
      seeds.push_back(r.chance(0.2) ? 0 : r.u64() | 1);
    }
    std::atomic<int> ready{0};
    std::atomic<uint64_t> clock{1};
    std::vector<std::thread> pool;
    for (int k = 0; k < threads; k++) {
      pool.emplace_back([&, k]() {
        delay_state = seeds[k];
        ready++;
        while (ready.load() < threads) {}
        for (auto & o : plan[k]) {
          if (o.kind == 0) {
            const Obj v(o.id);
            o.begin = clock.fetch_add(1);
            store.Insert(o.t, v);
            o.end = clock.fetch_add(1);
          } else if (o.kind == 1) {
            o.begin = clock.fetch_add(1);
            const auto g = store.GetClosest(o.t);
            o.end = clock.fetch_add(1);
            o.got_t = std::get<0>(g);
            o.got = std::get<1>(g).id;
            o.whole = std::get<1>(g).whole();
          } else if (o.kind == 2) {
            o.begin = clock.fetch_add(1);
            o.got = static_cast<int>(store.Size());
            o.end = clock.fetch_add(1);
          } else {
            o.begin = clock.fetch_add(1);
            store.RemoveOlderThan(o.t);
            o.end = clock.fetch_add(1);
          }
        }
        delay_state = 0;
      });
    }
    for (auto & t : pool) {t.join();}
    std::vector<Op> ops;
    std::string log;
    for (int k = 0; k < threads; k++) {
      log += vh::fmt("thread %d:", k);
      for (auto & o : plan[k]) {log += " " + o.str(); ops.push_back(o);}
      log += "; ";
    }
    // what the store holds in the end is part of the history
    uint64_t now = clock.load() + 1;
    Op s;
    s.kind = 2; s.got = static_cast<int>(store.Size()); s.begin = now++; s.end = now++;
    ops.push_back(s);
    std::string start;
    for (const auto & kv : initial) {start += vh::fmt(" %g:%d", kv.first, kv.second);}
    vh::note("held" + start + "; " + log + "size " + std::to_string(s.got));
    for (double t = -1000; t <= 8; t = t < 0 ? 0 : t + 1) {
      Op g;
      g.kind = 1; g.t = t; g.begin = now++;
      const auto v = store.GetClosest(t);
      g.got_t = std::get<0>(v); g.got = std::get<1>(v).id; g.whole = std::get<1>(v).whole(); g.end = now++;
      ops.push_back(g);
    }
    int overlaps = 0;
    for (size_t i = 0; i < ops.size(); i++) {
      VH_CHECK(ops[i].whole, "torn", "object %d is torn", ops[i].got);
      for (size_t j = 0; j < i; j++) {overlaps += ops[i].begin < ops[j].end && ops[j].begin < ops[i].end;}
      c.mark(ops[i].begin * 131 + ops[i].end);
    }
    Search search(ops);
    VH_CHECK(search.from(0, initial), "linearizable", "no sequential order of the calls explains the results");
    vh::count("histories");
    vh::count("overlapping_calls", overlaps);
    if (overlaps) {vh::count("histories_overlapping"); c.nontrivial = true;}
    if (c.desc.empty() && overlaps > 3) {c.desc = log;}
  }
}

// long runs of all calls at once, for the race detector and the address sanitizer
static void stress(vh::Case & c)
{
  vh::Rng & r = c.rng;
  StampSortedObjects<Obj> store;
  store.Insert(-1000., Obj(0));
  const int threads = 4, n = 300;
  std::atomic<int> bad{0}, ready{0};
  std::vector<std::thread> pool;
  for (int k = 0; k < threads; k++) {
    const uint64_t seed = r.u64();
    pool.emplace_back([&, k, seed]() {
      vh::Rng q(seed);
      ready++;
      while (ready.load() < threads) {}
      for (int i = 0; i < n; i++) {
        const double t = static_cast<double>(q.i(0, 40)), u = q.u();
        if (u < 0.4) {store.Insert(t, Obj(1 + k * n + i));
        } else if (u < 0.8) {
          const auto g = store.GetClosest(t);
          if (!std::get<1>(g).whole()) {bad++;}
        } else if (u < 0.9) {store.RemoveOlderThan(t);
        } else if (store.Size() < 1) {bad++;}
      }
    });
  }
  for (auto & t : pool) {t.join();}
  VH_CHECK(bad == 0, "torn", "%d torn objects or empty stores", bad.load());
  vh::count("stress_calls", threads * n);
}

void vh_case(vh::Case & c)
{
  const double k = c.rng.u();
  if (k < 0.5) {sequential(c);} else if (k < 0.55) {poses(c);} else if (k < 0.97) {concurrent(c);} else {stress(c);}
}
}  // namespace monitor

void vh_case(vh::Case & c) {monitor::vh_case(c);}
