// The localization node, from its main on. mode: C24
// Oracle: a list of the priors received; for each pair of scans a fresh node that is given only the closest prior and
// that pair; the true pose of the scene; and, for scans without points, the prior itself.
#include "vh.hpp"
#include "scene.hpp"
#include <unistd.h>
#include <filesystem>
#include <pcl/io/pcd_io.h>
#include <rclcpp/rclcpp.hpp>
#define main app_main
#include "localization/app/localization.cpp"
#undef main
#include "lidar_feature_library/point_type.hpp"

namespace monitor
{
using Pose = geometry_msgs::msg::PoseWithCovarianceStamped;
using Cloud2 = sensor_msgs::msg::PointCloud2;
using scene::Points;

static builtin_interfaces::msg::Time stamp_of(int64_t ns)
{
  builtin_interfaces::msg::Time t;
  t.sec = static_cast<int32_t>(ns / 1000000000LL);
  t.nanosec = static_cast<uint32_t>(ns % 1000000000LL);
  return t;
}
static void save(const std::string & path, const Points & ps)
{
  pcl::PointCloud<pcl::PointXYZ> c;
  for (const auto & p : ps) {c.push_back(pcl::PointXYZ(static_cast<float>(p(0)), static_cast<float>(p(1)), static_cast<float>(p(2))));}
  pcl::io::savePCDFileBinary(path, c);
}
static Cloud2 cloud_msg(const Points & ps, int64_t stamp, int kind)
{
  Cloud2 m;
  if (kind == 0) {
    pcl::PointCloud<pcl::PointXYZ> c;
    for (const auto & p : ps) {c.push_back(pcl::PointXYZ(static_cast<float>(p(0)), static_cast<float>(p(1)), static_cast<float>(p(2))));}
    pcl::toROSMsg(c, m);
  } else {
    pcl::PointCloud<PointXYZCR> c;
    for (const auto & p : ps) {c.push_back(PointXYZCR(static_cast<float>(p(0)), static_cast<float>(p(1)), static_cast<float>(p(2)), 0.5f, static_cast<uint16_t>(c.size() % 16)));}
    pcl::toROSMsg(c, m);
  }
  m.header.stamp = stamp_of(stamp);
  m.header.frame_id = "lidar_feature_base_link";
  return m;
}
static geometry_msgs::msg::Pose pose_msg(const Eigen::Isometry3d & p, bool flip)
{
  const Eigen::Quaterniond q(p.linear());
  const double s = flip ? -1 : 1;       // the same rotation
  geometry_msgs::msg::Pose m;
  m.position.x = p.translation()(0); m.position.y = p.translation()(1); m.position.z = p.translation()(2);
  m.orientation.w = s * q.w(); m.orientation.x = s * q.x(); m.orientation.y = s * q.y(); m.orientation.z = s * q.z();
  return m;
}

struct Prior {int64_t stamp; Eigen::Isometry3d pose; bool odom, flip;};
static void send_prior(const Prior & p)
{
  size_t n;
  if (p.odom) {
    nav_msgs::msg::Odometry m;
    m.header.stamp = stamp_of(p.stamp);
    m.header.frame_id = "map";
    m.pose.pose = pose_msg(p.pose, p.flip);
    n = shim::deliver("optimization_start_odom", m);
  } else {
    geometry_msgs::msg::PoseStamped m;
    m.header.stamp = stamp_of(p.stamp);
    m.header.frame_id = "map";
    m.pose = pose_msg(p.pose, p.flip);
    n = shim::deliver("optimization_start_pose", m);
  }
  VH_CHECK(n == 1, "subscriptions", "%zu subscriptions for a prior", n);
}
static int with_node(const std::function<void()> & f)
{
  shim::reset();
  std::exception_ptr err;
  bool ran = false;
  shim::bus().on_spin = [&](std::shared_ptr<rclcpp::Node>) {
      ran = true;
      try {f();} catch (...) {err = std::current_exception();}
    };
  char name[] = "app";
  char * argv[] = {name, nullptr};
  const int rc = app_main(1, argv);
  if (err) {std::rethrow_exception(err);}
  VH_CHECK(rc != 0 || ran, "node-not-spun", "main() returned 0 without spinning the node");
  return ran ? rc : (rc == 0 ? -1 : rc);
}

struct Scan {int64_t stamp; Cloud2 edge, surface; bool empty, near; Eigen::Isometry3d truth;};

static Eigen::Isometry3d isometry(const geometry_msgs::msg::Point & t, const geometry_msgs::msg::Quaternion & q)
{
  return reg::pose_of(Eigen::Quaterniond(q.w, q.x, q.y, q.z), Eigen::Vector3d(t.x, t.y, t.z));
}
// checks the one pose and the one transform published for a scan and returns the pose
static Eigen::Isometry3d outcome(const Scan & s)
{
  const auto poses = shim::bus().published<Pose>("estimated_pose");
  const auto & tfs = shim::bus().transforms;
  VH_CHECK(poses.size() == 1 && shim::bus().total_published() == 1 && tfs.size() == 1 && shim::bus().static_transforms.empty(), "one-result",
    "%zu poses, %zu messages, %zu transforms for one scan", poses.size(), shim::bus().total_published(), tfs.size());
  const Pose & p = *poses[0];
  const auto & t = tfs[0];
  VH_CHECK(p.header.stamp == stamp_of(s.stamp) && t.header.stamp == stamp_of(s.stamp), "stamp", "pose %d.%09u, transform %d.%09u, scan %lld",
    p.header.stamp.sec, p.header.stamp.nanosec, t.header.stamp.sec, t.header.stamp.nanosec, static_cast<long long>(s.stamp));
  VH_CHECK(p.header.frame_id == "map" && t.header.frame_id == "map" && t.child_frame_id == "lidar_feature_base_link", "frames", "%s, %s, %s",
    p.header.frame_id.c_str(), t.header.frame_id.c_str(), t.child_frame_id.c_str());
  for (int i = 0; i < 36; i++) {
    const double want = i % 7 ? 0. : i < 21 ? 1. : 0.1;
    VH_CHECK(p.pose.covariance[i] == want, "covariance", "element %d is %g, expected %g", i, p.pose.covariance[i], want);
  }
  const auto & a = p.pose.pose;
  const auto & b = t.transform;
  VH_CHECK(a.position.x == b.translation.x && a.position.y == b.translation.y && a.position.z == b.translation.z &&
    std::abs(std::abs(a.orientation.w * b.rotation.w + a.orientation.x * b.rotation.x + a.orientation.y * b.rotation.y + a.orientation.z * b.rotation.z) - 1) <= 1e-9,
    "pose-and-transform", "differ");
  const double n = std::sqrt(a.orientation.w * a.orientation.w + a.orientation.x * a.orientation.x + a.orientation.y * a.orientation.y + a.orientation.z * a.orientation.z);
  VH_CHECK(std::abs(n - 1) <= 1e-6, "orientation", "norm %g", n);
  const Eigen::Isometry3d got = isometry(a.position, a.orientation);
  VH_CHECK(got.matrix().allFinite(), "finite", "%s", reg::shown(got).c_str());
  shim::bus().clear_records();
  return got;
}
static void nothing(const char * what)
{
  VH_CHECK(shim::bus().total_published() == 0 && shim::bus().transforms.empty() && shim::bus().static_transforms.empty(), "nothing-expected",
    "%s: %zu messages and %zu transforms", what, shim::bus().total_published(), shim::bus().transforms.size());
}
static bool same(const Eigen::Isometry3d & a, const Eigen::Isometry3d & b, double tol)
{
  return reg::rotation_between(a, b) <= tol && (a.translation() - b.translation()).norm() <= tol * (1 + b.translation().norm());
}
// what the node answers when it has only this prior; the scans of a case share one fresh node per call
static Eigen::Isometry3d alone(const Prior & p, const Scan & s)
{
  Eigen::Isometry3d got;
  with_node([&]() {
    send_prior(p);
    shim::deliver("scan_edge", s.edge);
    shim::deliver("scan_surface", s.surface);
    got = outcome(s);
  });
  return got;
}

static void run_case(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const scene::Scene sc(r, static_cast<int>(r.i(5, 7)), static_cast<int>(r.i(4, 6)));
  const bool dense = r.chance(0.08);        // a map of some thousands of points
  save("maps/edge.pcd", sc.sample(r, true, dense ? 400 : 60));
  save("maps/surface.pcd", sc.sample(r, false, dense ? 1500 : 200));
  if (dense) {vh::count("dense_maps");}

  // the events: priors and the two halves of each scan
  struct Event {int kind; int index;};      // 0 prior, 1 edge, 2 surface
  std::vector<Prior> priors;
  std::vector<Scan> scans;
  std::vector<Event> events;
  const int64_t epoch = r.of<int64_t>({0LL, 5000000000LL, 1700000000000000000LL});
  const bool lengthy = r.chance(0.06);      // a long run; nearly all its scans are without points, which cost nothing to check
  const int n_scans = static_cast<int>(lengthy ? r.i(40, 150) : r.i(1, 5)), n_priors = static_cast<int>(lengthy ? r.i(60, 300) : r.chance(0.05) ? 0 : r.i(1, 8));
  const int64_t step = r.of<int64_t>({100000000LL, 100000000LL, 1000000000LL, 3000000000LL});
  const bool forward = lengthy || r.chance(0.7);       // most scans come in order
  for (int k = 0; k < n_scans; k++) {
    Scan s;
    s.stamp = epoch + 2000000000LL + step * (forward ? k : static_cast<int>(r.i(0, 20))) + (forward ? 0 : k) + r.of<int64_t>({0LL, 1LL, 37LL}) * 1024;
    s.truth = sc.viewpoint(r);
    s.empty = lengthy ? k != n_scans - 1 && !r.chance(0.01) : r.chance(0.25);
    const int kind = static_cast<int>(r.i(0, 1));
    Points e, f;
    if (!s.empty) {
      e = scene::seen_from(s.truth, sc.sample(r, true, 20));
      f = scene::seen_from(s.truth, sc.sample(r, false, 60));
    }
    s.near = !s.empty;
    if (s.empty) {} else if (r.chance(0.15)) {(r.chance(0.5) ? e : f).clear(); s.near = false;}
    s.edge = cloud_msg(e, s.stamp, kind);
    s.surface = cloud_msg(f, s.stamp, kind);
    if (r.chance(0.2)) {        // the sensor's frame has no say in the names of the result
      s.edge.header.frame_id = r.of<const char *>({"", "velodyne", "map", "/lidar"});
      s.surface.header.frame_id = r.of<const char *>({"", "velodyne", "map", "/lidar"});
      vh::count("other_frames");
    }
    scans.push_back(s);
  }
  std::vector<int64_t> stamps;
  for (auto & s : scans) {stamps.push_back(s.stamp);}
  for (int k = 0; k < n_priors; k++) {
    Prior p;
    const Scan & s = lengthy ? scans[std::min<size_t>(scans.size() - 1, static_cast<size_t>(k) * scans.size() / n_priors)] : r.pick(scans);
    // close to the pose of one of the scans, or anywhere
    if (lengthy || r.chance(0.8)) {
      p.pose = s.truth;
      p.pose = reg::pose_of(Eigen::Quaterniond(p.pose.linear()) * reg::rotation_by(0.2 * r.u() * reg::random_unit(r)), p.pose.translation() + 1.0 * r.u() * reg::random_unit(r));
      p.stamp = s.stamp + (lengthy ? 1024 * r.i(-100000, 100000) : 0) + r.of<int64_t>({0LL, 0LL, 1024LL, -1024LL, 30000000LL, -30000000LL, step / 2, -step / 2, 999999488LL, 1000000512LL, 1500000256LL});
    } else {
      p.pose = sc.viewpoint(r);
      p.stamp = epoch + r.i(0, 60) * 100000256LL;
    }
    if (k > 0 && r.chance(0.1)) {p.stamp = priors.back().stamp;}
    p.odom = r.chance(0.5);
    p.flip = r.chance(0.3);
    priors.push_back(p);
  }
  if (lengthy) {              // priors shortly before and after their scans
    int p = 0;
    const bool edge_first = r.chance(0.5);
    for (int k = 0; k < n_scans; k++) {
      for (; p < n_priors && static_cast<int64_t>(p) * n_scans / n_priors <= k + r.i(-1, 2); p++) {events.push_back({0, p});}
      events.push_back({edge_first ? 1 : 2, k});
      events.push_back({edge_first ? 2 : 1, k});
    }
    vh::count("long_runs");
  } else {
    for (int k = 0; k < n_priors; k++) {events.push_back({0, k});}
  }
  if (lengthy) {
  } else if (r.chance(0.7)) {        // everything as it comes
    for (int k = 0; k < n_scans; k++) {
      const bool edge_first = r.chance(0.5);
      events.push_back({edge_first ? 1 : 2, k});
      events.push_back({edge_first ? 2 : 1, k});
    }
    // move priors among the scans
    for (int k = 0; k < n_priors; k++) {
      if (!r.chance(0.5)) {continue;}
      const Event e = events.front();
      events.erase(events.begin());
      if (e.kind) {events.insert(events.begin(), e); break;}
      events.insert(events.begin() + r.i(0, static_cast<int64_t>(events.size())), e);
    }
  } else {                    // one topic is late
    std::vector<int> by_stamp(n_scans);
    std::iota(by_stamp.begin(), by_stamp.end(), 0);
    std::sort(by_stamp.begin(), by_stamp.end(), [&](int a, int b) {return scans[a].stamp < scans[b].stamp;});
    const int first = static_cast<int>(r.i(1, 2));
    for (int k : by_stamp) {events.push_back({first, k});}
    for (int k : by_stamp) {events.push_back({3 - first, k});}
    vh::count("late_topics");
  }

  std::string log, forgotten;     // forgotten: a known finding, reported when nothing else is wrong
  c.mark(static_cast<uint64_t>(n_scans * 10 + n_priors));
  struct Result {int scan; Eigen::Isometry3d got; bool ambiguous = false, has_trim = false; Prior full, trim;};
  std::vector<Result> results;
  const int rc = with_node([&]() {
    std::vector<Prior> received, held;      // held: without those the node has forgotten
    std::set<int> half;
    auto insert = [](std::vector<Prior> & v, const Prior & p) {
        v.erase(std::remove_if(v.begin(), v.end(), [&](const Prior & o) {return static_cast<double>(o.stamp) == static_cast<double>(p.stamp);}), v.end());
        v.push_back(p);
      };
    auto closest = [](const std::vector<Prior> & v, int64_t t) {
        const Prior * best = nullptr;
        for (const auto & p : v) {
          if (!best) {best = &p; continue;}
          const double d = std::abs(static_cast<double>(p.stamp) - static_cast<double>(t)), b = std::abs(static_cast<double>(best->stamp) - static_cast<double>(t));
          if (d < b || (d == b && p.stamp > best->stamp)) {best = &p;}
        }
        return *best;
      };
    for (const auto & e : events) {
      if (e.kind == 0) {
        const Prior & p = priors[e.index];
        log += vh::fmt(" %s %lld", p.odom ? "odom" : "pose", static_cast<long long>(p.stamp));
        vh::note(log);
        send_prior(p);
        insert(received, p);
        insert(held, p);
        nothing("a prior");
        vh::count("priors");
        continue;
      }
      const Scan & s = scans[e.index];
      log += vh::fmt(" %s %lld%s", e.kind == 1 ? "edge" : "surface", static_cast<long long>(s.stamp), s.empty ? " (empty)" : "");
      vh::note(log);
      const size_t n = e.kind == 1 ? shim::deliver("scan_edge", s.edge) : shim::deliver("scan_surface", s.surface);
      VH_CHECK(n == 1, "subscriptions", "%zu subscriptions for a scan", n);
      if (half.insert(e.index).second) {
        nothing("half a scan");
        continue;
      }
      if (received.empty()) {
        nothing("no prior yet");
        vh::count("scans_without_prior");
        continue;
      }
      Result res;
      res.scan = e.index;
      res.full = closest(received, s.stamp);
      for (const auto & p : received) {        // stamps are compared as doubles, 256 ns apart for current times
        const int64_t d = std::llabs(p.stamp - s.stamp), b = std::llabs(res.full.stamp - s.stamp);
        if (epoch > 1000000000000000LL && p.stamp != res.full.stamp && std::llabs(d - b) <= 1024) {res.ambiguous = true;}
      }
      res.has_trim = !held.empty();
      if (res.has_trim) {res.trim = closest(held, s.stamp);}
      if (!res.has_trim && shim::bus().total_published() == 0) {
        forgotten = vh::fmt("no pose for scan %lld although a prior (of %lld) was received: priors more than 1 s later than a registered scan are forgotten",
          static_cast<long long>(s.stamp), static_cast<long long>(res.full.stamp));
        continue;
      }
      res.got = outcome(s);
      results.push_back(res);
      const double limit = static_cast<double>(s.stamp) + 1e9;
      held.erase(std::remove_if(held.begin(), held.end(), [&](const Prior & p) {return static_cast<double>(p.stamp) > limit;}), held.end());
    }
  });
  VH_CHECK(rc == 0, "exit", "main() returned %d", rc);
  c.desc = log;
  for (const auto & res : results) {
    const Scan & s = scans[res.scan];
    vh::note(log + vh::fmt(" | scan %lld: prior %lld %s, published %s, true pose %s", static_cast<long long>(s.stamp), static_cast<long long>(res.full.stamp), reg::shown(res.full.pose).c_str(), reg::shown(res.got).c_str(), reg::shown(s.truth).c_str()));
    const bool direct = lengthy && s.empty;      // no need for another node: the answer has to be the prior
    const Eigen::Isometry3d want = direct ? res.full.pose : alone(res.full, s);
    c.mark(want.translation()(0));
    c.nontrivial = true;
    if (res.ambiguous) {vh::count("ambiguous"); continue;}
    if (!same(res.got, want, 1e-7)) {
      if (res.has_trim && res.trim.stamp != res.full.stamp && same(res.got, direct ? res.trim.pose : alone(res.trim, s), 1e-7)) {
        forgotten = vh::fmt("scan %lld was registered from the prior of %lld although one of %lld was received: priors more than 1 s later than a registered scan are forgotten",
          static_cast<long long>(s.stamp), static_cast<long long>(res.trim.stamp), static_cast<long long>(res.full.stamp));
        continue;
      }
      vh::fail("prior", vh::fmt("a fresh node with the closest prior alone gives %s", reg::shown(want).c_str()));
    }
    vh::count("registered");
    if (s.empty) {
      VH_CHECK(same(res.got, res.full.pose, 1e-9), "empty-scan", "a scan without points moved the prior %s", reg::shown(res.full.pose).c_str());
      vh::count("empty_scans");
    }
    const bool close = reg::rotation_between(res.full.pose, s.truth) <= 0.205 && (res.full.pose.translation() - s.truth.translation()).norm() <= 1.01;
    if (s.near && close) {
      VH_CHECK(reg::rotation_between(res.got, s.truth) <= 1e-6 && (res.got.translation() - s.truth.translation()).norm() <= 2e-5, "truth",
        "off by %.3g rad and %.3g m", reg::rotation_between(res.got, s.truth), (res.got.translation() - s.truth.translation()).norm());
      vh::count("recovered");
    }
  }
  if (!forgotten.empty()) {
    vh::note(log);
    vh::fail("prior-forgotten", forgotten);
  }
}

static void missing_maps(vh::Case & c)
{
  const int which = static_cast<int>(c.rng.i(0, 2));      // edge, surface, both
  save("maps/edge.pcd", {Eigen::Vector3d(1, 2, 3)});
  save("maps/surface.pcd", {Eigen::Vector3d(1, 2, 3)});
  if (which != 1) {std::filesystem::remove("maps/edge.pcd");}
  if (which != 0) {std::filesystem::remove("maps/surface.pcd");}
  bool spun = false;
  const int rc = with_node([&]() {spun = true;});
  VH_CHECK(rc != 0 && !spun, "missing-map", "main() returned %d%s without its maps", rc, spun ? " after spinning" : "");
  vh::count("missing_maps");
}

void vh_case(vh::Case & c)
{
  const std::string dir = (vh::opt().scratch.empty() ? std::string("/tmp") : vh::opt().scratch) + "/loc";
  std::filesystem::remove_all(dir + "/maps");
  std::filesystem::create_directories(dir + "/maps");
  if (chdir(dir.c_str()) != 0) {perror("chdir"); exit(3);}
  if (c.rng.chance(0.02)) {missing_maps(c);} else {run_case(c);}
}
}  // namespace monitor

void vh_case(vh::Case & c) {monitor::vh_case(c);}
