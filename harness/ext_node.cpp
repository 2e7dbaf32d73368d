// The extraction node, observed from outside: sweeps in, published clouds out.
// modes: C01 structure, C02 selection, C03 rejection, C04 order independence, C07 robustness
#include "vh.hpp"
#define main app_main
#include "extraction/app/feature_extraction.cpp"
#undef main
#include "ext_common.hpp"

namespace ext
{
using sensor_msgs::msg::PointCloud2;

struct Out
{
  std::vector<Seen> colored, edge, surface;
  std::shared_ptr<const PointCloud2> mc, me, ms;
  size_t n = 0;      // messages in all
};

static Out take()
{
  Out o;
  const auto c = shim::bus().published<PointCloud2>("colored_scan");
  const auto e = shim::bus().published<PointCloud2>("scan_edge");
  const auto s = shim::bus().published<PointCloud2>("scan_surface");
  o.n = shim::bus().total_published();
  VH_CHECK(c.size() == 1 && e.size() == 1 && s.size() == 1 && o.n == 3, "one-output-per-sweep",
    "published %zu coloured, %zu edge, %zu surface clouds (%zu in all) for one sweep", c.size(), e.size(), s.size(), o.n);
  o.mc = c[0]; o.me = e[0]; o.ms = s[0];
  o.colored = decode(*o.mc, true, "colored_scan");
  o.edge = decode(*o.me, false, "scan_edge");
  o.surface = decode(*o.ms, false, "scan_surface");
  shim::bus().clear_records();
  return o;
}

static void with_node(const Params & prm, const std::function<void()> & f)
{
  shim::reset();
  prm.set();
  bool ran = false;
  std::exception_ptr err;
  shim::bus().on_spin = [&](std::shared_ptr<rclcpp::Node>) {
      ran = true;
      try {f();} catch (...) {err = std::current_exception();}
    };
  char name[] = "app";
  char * argv[] = {name, nullptr};
  app_main(1, argv);
  if (err) {std::rethrow_exception(err);}
  VH_CHECK(ran, "node-not-spun", "main() returned without spinning the node");
}

static std::string describe(const Sweep & s, const Params & prm)
{
  std::string t = prm.str() + vh::fmt(" points=%zu:", s.size());
  for (size_t k = 0; k < s.size() && k < 60; k++) {
    t += vh::fmt(" (%.9g,%.9g,%.9g,r%u)", s[k].x, s[k].y, s[k].z, s[k].ring);
  }
  return t;
}

static void make_unique(Sweep & s)
{
  std::set<XYZ> seen;
  for (auto & p : s) {
    while (!seen.insert(key(p)).second) {p.z = std::nextafter(p.z, 1e9f) + 0.001f;}
  }
}

static Sweep random_sweep(vh::Rng & r, const Params & prm, bool hostile, bool many = false)
{
  Sweep s;
  const World w(r);
  // now and then as many rings and points as real sensors have, and more points than 16 bits count
  const bool wide = r.chance(0.002), dense = !wide && r.chance(0.01);
  const int rings = static_cast<int>(wide ? r.i(64, 140) : r.chance(0.5) ? r.i(1, 3) : r.i(1, many ? 16 : 8));
  const int full = static_cast<int>(wide ? 75000 / rings : r.i(1000, 4500));
  if (wide) {vh::count("sweeps_wide");}
  if (dense) {vh::count("sweeps_dense");}
  std::vector<uint16_t> ids;
  for (int k = 0; k < rings; k++) {
    uint16_t id = static_cast<uint16_t>(r.chance(0.7) ? k : r.i(0, 65535));
    while (std::find(ids.begin(), ids.end(), id) != ids.end()) {id++;}
    ids.push_back(id);
    int n = static_cast<int>(r.chance(0.2) ? r.i(0, 30) : r.i(20, 260));
    if (wide || (dense && r.chance(0.5))) {n = full - static_cast<int>(r.i(0, full / 20));}
    if (hostile && r.chance(0.4)) {
      add_bad_ring(s, r, id, n);
    } else {
      add_ring(s, r, id, n, static_cast<int>(r.i(0, 6)), w, prm);
    }
  }
  const int order = static_cast<int>(r.i(0, 2));
  if (order == 1) {r.shuffle(s);}
  if (order == 2) {std::stable_sort(s.begin(), s.end(), [](const P & a, const P & b) {return a.z < b.z;});}
  return s;
}

static PointCloud2 msg_of(const Sweep & s, vh::Rng & r)
{
  return to_msg(s, static_cast<int>(r.i(0, 5)), static_cast<int32_t>(r.i(0, 2000000000)),
           static_cast<uint32_t>(r.i(0, 999999999)), r.of({"velodyne", "", "base"}), pick_height(r, s.size()));
}

static std::map<XYZ, int> multiset(const std::vector<Seen> & v)
{
  std::map<XYZ, int> m;
  for (const auto & p : v) {m[key(p.x, p.y, p.z)]++;}
  return m;
}

static std::string pt(const XYZ & k)
{
  float f[3];
  std::memcpy(f, k.data(), 12);
  return vh::fmt("(%.9g, %.9g, %.9g)", f[0], f[1], f[2]);
}

static int col(const Seen & s) {return s.r << 16 | s.g << 8 | s.b;}
constexpr int WHITE = 0xffffff, RED = 0xff0000, ORANGE = 0xff3f00, GREY = 0x7f7f7f, MAGENTA = 0xff00ff, GREEN = 0x00ff00;

// ------------------------------------------------------------------ C01
static void check_structure(const Sweep & s, const PointCloud2 & m, const Out & o, const Params & prm)
{
  for (const auto & p : {o.mc, o.me, o.ms}) {
    VH_CHECK(p->header.stamp == m.header.stamp, "stamp", "stamp %d.%09u, input %d.%09u", p->header.stamp.sec,
      p->header.stamp.nanosec, m.header.stamp.sec, m.header.stamp.nanosec);
    VH_CHECK(p->header.frame_id == "lidar_feature_base_link", "frame", "frame '%s'", p->header.frame_id.c_str());
  }
  std::map<XYZ, int> in;
  for (const auto & p : s) {in[key(p)]++;}
  const auto e = multiset(o.edge), f = multiset(o.surface), c = multiset(o.colored);
  for (const auto & kv : e) {
    VH_CHECK(in.count(kv.first), "edge-not-an-input-point", "edge point %s is no input point", pt(kv.first).c_str());
  }
  for (const auto & kv : f) {
    VH_CHECK(in.count(kv.first), "surface-not-an-input-point", "surface point %s is no input point", pt(kv.first).c_str());
  }
  for (const auto & kv : c) {
    VH_CHECK(in.count(kv.first), "coloured-not-an-input-point", "coloured point %s is no input point", pt(kv.first).c_str());
    VH_CHECK(kv.second <= in[kv.first], "coloured-twice", "point %s coloured %d times, is there %d times",
      pt(kv.first).c_str(), kv.second, in[kv.first]);
  }
  for (const auto & kv : in) {
    auto get = [&](const std::map<XYZ, int> & x) {auto it = x.find(kv.first); return it == x.end() ? 0 : it->second;};
    VH_CHECK(get(e) + get(f) <= kv.second, "published-twice",
      "point %s is there %d times but is an edge %d times and a surface %d times", pt(kv.first).c_str(), kv.second, get(e), get(f));
  }
  // coloured cloud: per ring all points or none
  const auto rings = group(s);
  std::map<XYZ, int> left = c;
  std::map<XYZ, std::set<uint16_t>> owners;
  for (const auto & p : s) {owners[key(p)].insert(p.ring);}
  for (const auto & kv : rings) {
    size_t there = 0;
    bool shared = false;      // a point of another ring has the same coordinates: cannot be told apart
    for (size_t i : kv.second) {shared = shared || owners[key(s[i])].size() > 1;}
    if (shared) {vh::count("rings_sharing_points"); continue;}
    for (size_t i : kv.second) {
      auto it = left.find(key(s[i]));
      if (it != left.end() && it->second > 0) {it->second--; there++;}
    }
    const RefRing R = reference_ring(s, kv.second, prm);
    if (R.processable) {
      VH_CHECK(there == kv.second.size(), "ring-incomplete", "ring %u: %zu of %zu points in the coloured cloud", kv.first,
        there, kv.second.size());
      vh::count("rings_complete");
    } else if (R.too_short) {
      VH_CHECK(there == 0, "short-ring-present", "ring %u with %zu points cannot be processed, but %zu points are coloured",
        kv.first, kv.second.size(), there);
      vh::count("rings_too_short");
    } else {
      VH_CHECK(there == 0 || there == kv.second.size(), "ring-incomplete", "ring %u: %zu of %zu points in the coloured cloud",
        kv.first, there, kv.second.size());
    }
  }
  // colours and features tell the same story
  std::map<XYZ, int> red;
  size_t reds = 0;
  for (const auto & q : o.colored) {
    const int k = col(q);
    VH_CHECK(k == WHITE || k == RED || k == ORANGE || k == GREY || k == MAGENTA || k == GREEN, "colour",
      "point has colour %06x, which no class has", k);
    if (k == RED) {red[key(q.x, q.y, q.z)]++; reds++;}
  }
  for (const auto & kv : red) {
    const int n = (e.count(kv.first) ? e.at(kv.first) : 0) + (f.count(kv.first) ? f.at(kv.first) : 0);
    VH_CHECK(n == kv.second, "colour-vs-feature", "point %s is red %d times but a feature %d times", pt(kv.first).c_str(), kv.second, n);
  }
  VH_CHECK(reds == o.edge.size() + o.surface.size(), "colour-vs-feature", "%zu red points, %zu edge + %zu surface", reds,
    o.edge.size(), o.surface.size());
  vh::count("edges", o.edge.size());
  vh::count("surfaces", o.surface.size());
  vh::count("coloured", o.colored.size());
}

static void run_c01(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const Params prm = random_params(r);
  with_node(prm, [&] {
      // state may leak from sweep to sweep
      const int n = static_cast<int>(r.chance(0.005) ? r.i(30, 130) : r.i(1, 3));
      if (n >= 30) {vh::count("long_runs");}
      for (int k = 0; k < n; k++) {
        Sweep s = random_sweep(r, prm, r.chance(0.3), true);
        if (r.chance(0.3)) {     // duplicated returns
          const size_t m = s.size();
          for (size_t q = 0; q < m; q++) {if (r.chance(0.1)) {s.push_back(s[q]);}}
        } else if (r.chance(0.7)) {
          make_unique(s);
        }
        vh::note(describe(s, prm));
        const auto m = msg_of(s, r);
        VH_CHECK(shim::deliver("points_raw", m) == 1, "not-subscribed", "nobody listens to points_raw");
        const Out o = take();
        check_structure(s, m, o, prm);
        vh::count("sweeps");
        if (o.edge.size() + o.surface.size() > 0) {c.nontrivial = true;}
        c.mark(static_cast<uint64_t>(s.size())); c.mark(static_cast<uint64_t>(o.edge.size() * 1000 + o.surface.size()));
        if (c.desc.empty() && c.nontrivial) {
          c.desc = describe(s, prm).substr(0, 400) + vh::fmt(" -> %zu edge, %zu surface, %zu coloured", o.edge.size(),
              o.surface.size(), o.colored.size());
        }
      }
    });
}

// ------------------------------------------------------------------ C02, C03
static void run_c0203(vh::Case & c, bool rejection)
{
  vh::Rng & r = c.rng;
  Params prm = random_params(r);
  if (!rejection && r.chance(0.5)) {    // few rejections, so that many points take part in the selection
    prm.dist_diff = 1e6; prm.min_range = 1e-4; prm.max_range = 1e9; prm.parallel = 1e9;
  }
  with_node(prm, [&] {
      Sweep s = random_sweep(r, prm, false);
      make_unique(s);
      vh::note(describe(s, prm));
      VH_CHECK(shim::deliver("points_raw", msg_of(s, r)) == 1, "not-subscribed", "nobody listens to points_raw");
      const Out o = take();
      std::map<XYZ, int> colour;
      for (const auto & q : o.colored) {colour[key(q.x, q.y, q.z)] = col(q);}
      const auto e = multiset(o.edge), f = multiset(o.surface);
      for (const auto & kv : group(s)) {
        const RefRing R = reference_ring(s, kv.second, prm);
        if (R.too_short) {
          for (size_t i : kv.second) {
            VH_CHECK(!e.count(key(s[i])) && !f.count(key(s[i])), "feature-of-short-ring", "ring %u has %zu points only",
              kv.first, kv.second.size());
          }
          continue;
        }
        if (!R.certain || !R.processable) {vh::count("rings_uncertain"); continue;}
        vh::count("rings_checked");
        for (size_t k = 0; k < R.order.size(); k++) {
          const XYZ q = key(s[R.order[k]]);
          const bool is_e = e.count(q) > 0, is_f = f.count(q) > 0;
          const int cc = colour.count(q) ? colour[q] : -1;
          const bool rejected = R.occluded[k] || R.out_of_range[k] || R.parallel[k];
          const bool seen_rejected = cc == GREY || cc == MAGENTA || cc == GREEN;
          if (rejection) {
            if (rejected) {
              VH_CHECK(!is_e && !is_f, "rejected-point-published",
                "ring %u position %zu of %zu %s is %s%s%s but published as %s", kv.first, k, R.order.size(), pt(q).c_str(),
                R.occluded[k] ? "occluded " : "", R.out_of_range[k] ? "out of range " : "", R.parallel[k] ? "parallel" : "",
                is_e ? "edge" : "surface");
              VH_CHECK(seen_rejected, "rejected-point-not-marked", "ring %u position %zu of %zu %s: occluded=%d out_of_range=%d "
                "parallel=%d but colour is %06x", kv.first, k, R.order.size(), pt(q).c_str(), R.occluded[k], R.out_of_range[k],
                R.parallel[k], cc);
              VH_CHECK((cc == MAGENTA && R.occluded[k]) || (cc == GREY && R.out_of_range[k]) || (cc == GREEN && R.parallel[k]),
                "rejected-as-another-class", "ring %u position %zu of %zu %s: occluded=%d out_of_range=%d parallel=%d but colour is %06x",
                kv.first, k, R.order.size(), pt(q).c_str(), R.occluded[k], R.out_of_range[k], R.parallel[k], cc);
              vh::count(R.occluded[k] ? "occluded" : R.out_of_range[k] ? "out_of_range" : "parallel");
              c.mark(static_cast<uint64_t>(k * 8 + R.occluded[k] * 4 + R.out_of_range[k] * 2 + R.parallel[k]));
              c.nontrivial = true;
            } else {
              VH_CHECK(!seen_rejected, "kept-point-marked-rejected", "ring %u position %zu of %zu %s passes all three tests but "
                "has colour %06x", kv.first, k, R.order.size(), pt(q).c_str(), cc);
              vh::count("kept");
            }
            continue;
          }
          if (rejected || seen_rejected) {continue;}
          const Cls want = R.cls[k];
          VH_CHECK(is_e == (want == Edge), "edge-selection", "ring %u position %zu of %zu %s: %s an edge by the rule (class %d), %s "
            "published as one", kv.first, k, R.order.size(), pt(q).c_str(), want == Edge ? "is" : "is not", want,
            is_e ? "but" : "but not");
          VH_CHECK(is_f == (want == Surface), "surface-selection", "ring %u position %zu of %zu %s: %s a surface by the rule (class "
            "%d), %s published as one", kv.first, k, R.order.size(), pt(q).c_str(), want == Surface ? "is" : "is not", want,
            is_f ? "but" : "but not");
          const int wc = want == Default ? WHITE : (want == Edge || want == Surface) ? RED : ORANGE;
          VH_CHECK(cc == wc, "suppression", "ring %u position %zu of %zu %s: class %d, colour %06x", kv.first, k, R.order.size(),
            pt(q).c_str(), want, cc);
          vh::count(want == Edge ? "edges" : want == Surface ? "surfaces" : want == Default ? "plain" : "suppressed");
          if (want == Edge || want == Surface) {c.nontrivial = true; c.mark(static_cast<uint64_t>(k * 8 + want));}
        }
      }
      if (c.nontrivial) {c.desc = describe(s, prm).substr(0, 400);}
    });
}

// ------------------------------------------------------------------ C04
static void run_c04(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const Params prm = random_params(r);
  with_node(prm, [&] {
      Sweep s = random_sweep(r, prm, r.chance(0.2));
      make_unique(s);
      vh::note(describe(s, prm));
      // the order among points of equal azimuth and equal curvature is open: leave such rings out
      Sweep clean;
      for (const auto & kv : group(s)) {
        const RefRing R = reference_ring(s, kv.second, prm);
        if (R.certain) {for (size_t i : kv.second) {clean.push_back(s[i]);}}
      }
      if (clean.empty()) {vh::count("sweeps_without_certain_ring"); return;}
      Out first;
      for (int k = 0; k < 3; k++) {
        Sweep t = clean;
        if (k == 1) {std::reverse(t.begin(), t.end());}
        if (k == 2) {r.shuffle(t);}
        shim::deliver("points_raw", to_msg(t, k, 5, 6, "x"));
        const Out o = take();
        if (k == 0) {first = o; continue;}
        VH_CHECK(multiset(o.edge) == multiset(first.edge), "edges-depend-on-order", "%zu edges, %zu after permuting the input",
          first.edge.size(), o.edge.size());
        VH_CHECK(multiset(o.surface) == multiset(first.surface), "surfaces-depend-on-order",
          "%zu surfaces, %zu after permuting the input", first.surface.size(), o.surface.size());
        VH_CHECK(multiset(o.colored) == multiset(first.colored), "coloured-depends-on-order",
          "%zu coloured, %zu after permuting the input", first.colored.size(), o.colored.size());
      }
      vh::count("sweeps_permuted");
      c.nontrivial = first.edge.size() + first.surface.size() > 0;
      c.mark(static_cast<uint64_t>(clean.size()));
      c.mark(static_cast<uint64_t>(first.edge.size() * 4096 + first.surface.size()));
      if (c.nontrivial) {c.desc = describe(clean, prm).substr(0, 400);}
    });
}

// ------------------------------------------------------------------ C07
static void run_c07(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const Params prm = random_params(r);
  const int what = static_cast<int>(r.i(0, 9));
  with_node(prm, [&] {
      const World w(r);
      Sweep good;
      const int rings = static_cast<int>(r.i(1, 3)), lowest = static_cast<int>(r.of({0, 0, 10, 200}));
      for (int k = 0; k < rings; k++) {
        add_ring(good, r, static_cast<uint16_t>(lowest + 10 * k), static_cast<int>(r.i(60, 200)), 0, w, prm);
      }
      make_unique(good);
      const auto gm = to_msg(good, 0, 7, 8, "x");
      shim::deliver("points_raw", gm);
      const Out before = take();
      if (what == 0 || what == 1) {        // unacceptable sweep
        auto m = to_msg(good, 0, 9, 9, "x");
        if (what == 0) {
          m.is_dense = false;
          const float nan = std::numeric_limits<float>::quiet_NaN();
          for (uint32_t k = 0; k < m.width; k++) {
            if (r.chance(0.3)) {std::memcpy(m.data.data() + k * m.point_step + 4 * r.i(0, 2), &nan, 4);}
          }
        } else {
          m.fields.pop_back();
          if (r.chance(0.2)) {m.width = 0; m.row_step = 0; m.data.clear();}
          if (r.chance(0.5)) {m.fields.push_back(field(r.of({"Ring", "ring_id", "rings", "", "channel"}), 20, 4));}
        }
        vh::note(vh::fmt("%s sweep of %u points", what == 0 ? "not dense" : "ringless", m.width));
        const size_t errors = shim::bus().n_log[3] + shim::bus().n_log[4];
        shim::deliver("points_raw", m);
        VH_CHECK(shim::bus().total_published() == 0 && shim::bus().dropped_after_shutdown == 0, "output-for-unacceptable-sweep",
          "%zu clouds published, %zu more attempted", shim::bus().total_published(), shim::bus().dropped_after_shutdown);
        VH_CHECK(!shim::bus().ok, "node-not-stopped", "the node goes on after an unacceptable sweep");
        VH_CHECK(shim::bus().n_log[3] + shim::bus().n_log[4] > errors, "not-reported", "no error was logged");
        vh::count(what == 0 ? "not_dense_refused" : "ringless_refused");
        c.nontrivial = true;
        c.mark(c.rng.u64());
        return;
      }
      Sweep bad;
      const int nb = static_cast<int>(r.i(1, 4));
      for (int k = 0; k < nb; k++) {
        const int n = static_cast<int>(r.chance(0.4) ? r.i(0, 2 * prm.padding + prm.n_blocks + 2) : r.i(0, 300));
        // before, between and after the good rings
        add_bad_ring(bad, r, static_cast<uint16_t>(lowest > 5 && r.chance(0.4) ? k : r.chance(0.5) ? lowest + 10 * k + 5 : 1000 + k), n);
      }
      if (what == 2) {
        bad.clear();                       // nothing but an empty sweep
        shim::deliver("points_raw", to_msg(bad, static_cast<int>(r.i(0, 5)), 1, 1, "x"));
        const Out o = take();
        VH_CHECK(o.colored.empty() && o.edge.empty() && o.surface.empty(), "output-for-empty-sweep", "not empty");
        vh::count("empty_sweeps");
      } else if (what <= 4) {              // hostile sweep alone
        vh::note(describe(bad, prm));
        shim::deliver("points_raw", msg_of(bad, r));
        const Out o = take();
        VH_CHECK(o.colored.size() <= bad.size(), "too-many-points", "%zu", o.colored.size());
        vh::count("hostile_sweeps");
        vh::count("hostile_points", bad.size());
      } else {                             // hostile rings among good ones
        Sweep both = good;
        both.insert(both.end(), bad.begin(), bad.end());
        if (r.chance(0.5)) {r.shuffle(both); }
        vh::note(describe(bad, prm));
        shim::deliver("points_raw", msg_of(both, r));
        const Out o = take();
        // what came out of the good rings is what comes out of them alone
        std::set<XYZ> g;
        for (const auto & p : good) {g.insert(key(p));}
        // the order among points of equal azimuth is open once the input is shuffled
        bool certain = true;
        for (const auto & kv : group(good)) {certain = certain && reference_ring(good, kv.second, prm).certain;}
        auto only = [&](const std::vector<Seen> & v) {
            std::map<XYZ, int> m;
            for (const auto & p : v) {if (g.count(key(p.x, p.y, p.z))) {m[key(p.x, p.y, p.z)]++;}}
            return m;
          };
        if (certain) {
          bool clash = false;
          for (const auto & p : bad) {clash = clash || g.count(key(p));}
          if (!clash) {
            VH_CHECK(only(o.edge) == multiset(before.edge), "bad-ring-affects-edges", "%zu edges alone", before.edge.size());
            VH_CHECK(only(o.surface) == multiset(before.surface), "bad-ring-affects-surfaces", "%zu surfaces alone", before.surface.size());
            VH_CHECK(only(o.colored) == multiset(before.colored), "bad-ring-affects-coloured", "%zu alone", before.colored.size());
            vh::count("mixed_sweeps");
          }
        }
      }
      VH_CHECK(shim::bus().ok, "node-stopped", "an acceptable sweep stopped the node");
      shim::deliver("points_raw", gm);
      const Out after = take();
      VH_CHECK(after.me->data == before.me->data && after.ms->data == before.ms->data && after.mc->data == before.mc->data,
        "later-sweep-affected", "the same sweep gave %zu/%zu edges and %zu/%zu surfaces before/after a hostile one",
        before.edge.size(), after.edge.size(), before.surface.size(), after.surface.size());
      c.nontrivial = true;
      c.mark(r.u64());
      c.desc = describe(bad, prm).substr(0, 400);
    });
}

void vh_case(vh::Case & c)
{
  const std::string & m = vh::opt().mode;
  if (m == "C01") {run_c01(c);
  } else if (m == "C02") {run_c0203(c, false);
  } else if (m == "C03") {run_c0203(c, true);
  } else if (m == "C04") {run_c04(c);
  } else {run_c07(c);}
}
}  // namespace ext

void vh_case(vh::Case & c) {ext::vh_case(c);}
