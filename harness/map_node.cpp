// The mapping node, from its main on, and its map builder. mode: C25
#include "vh.hpp"
#include "reg_ref.hpp"
#include <unistd.h>
#include <filesystem>
#include <pcl/io/pcd_io.h>
#include <rclcpp/rclcpp.hpp>
#define main app_main
#include "mapping/src/mapping.cpp"
#undef main

namespace monitor
{
using Cloud2 = sensor_msgs::msg::PointCloud2;
using PoseMsg = geometry_msgs::msg::PoseStamped;

static builtin_interfaces::msg::Time stamp_of(int64_t ns)
{
  builtin_interfaces::msg::Time t;
  t.sec = static_cast<int32_t>(ns / 1000000000LL);
  t.nanosec = static_cast<uint32_t>(ns % 1000000000LL);
  return t;
}
struct Scan {int64_t stamp; std::vector<PointXYZCR> points; Eigen::Isometry3d pose; bool flip, dense;};

static Cloud2 cloud_msg(const Scan & s)
{
  pcl::PointCloud<PointXYZCR> c;
  for (const auto & p : s.points) {c.push_back(p);}
  c.is_dense = s.dense;
  Cloud2 m;
  pcl::toROSMsg(c, m);
  m.header.stamp = stamp_of(s.stamp);
  m.header.frame_id = "lidar_feature_base_link";
  return m;
}
static PoseMsg pose_msg(const Scan & s)
{
  const Eigen::Quaterniond q(s.pose.linear());
  const double k = s.flip ? -1 : 1;
  PoseMsg m;
  m.header.stamp = stamp_of(s.stamp);
  m.header.frame_id = "map";
  m.pose.position.x = s.pose.translation()(0); m.pose.position.y = s.pose.translation()(1); m.pose.position.z = s.pose.translation()(2);
  m.pose.orientation.w = k * q.w(); m.pose.orientation.x = k * q.x(); m.pose.orientation.y = k * q.y(); m.pose.orientation.z = k * q.z();
  return m;
}

// distance of the pose from the last accepted one, in units of the thresholds: >= 1 in either means accepted
static double travel(const Eigen::Isometry3d & a, const Eigen::Isometry3d & b) {return (a.translation() - b.translation()).norm() / 1.0;}
static double turn(const Eigen::Isometry3d & a, const Eigen::Isometry3d & b) {return std::sin(reg::rotation_between(a, b) / 2) / 0.1;}

static std::vector<Scan> random_drive(vh::Rng & r, int n, int64_t epoch)
{
  std::vector<Scan> v;
  const double size = r.lg(0.5, 100);
  Eigen::Isometry3d last = Eigen::Isometry3d::Identity(), pose;      // last: the pose accepted last
  bool any = false;
  const bool slow = r.chance(0.15);       // small steps that only add up
  const double step = r.lg(1e-4, 0.3), twist = r.lg(1e-5, 0.03);
  const Eigen::Vector3d heading = reg::random_unit(r), axis = reg::random_unit(r);
  if (slow) {vh::count("slow_drives");}
  const int large = n > 0 && r.chance(0.01) ? static_cast<int>(r.i(1, std::min(n, 3))) : 0;      // scans of more points than 16 bits count
  // the first pose may be close to where an unset previous pose might be
  pose = r.chance(0.4) ? Eigen::Isometry3d::Identity() : reg::pose_of(reg::random_rotation(r), size * Eigen::Vector3d(r.n(), r.n(), r.n()));
  for (int k = 0; k < n; k++) {
    Scan s;
    s.stamp = epoch + k * r.of<int64_t>({100000000LL, 1LL, 50000000LL}) + k * 1000LL;
    if (!v.empty()) {s.stamp = std::max(s.stamp, v.back().stamp + 1);}
    if (k) {
      const Eigen::Isometry3d & from = r.chance(0.8) ? last : pose;
      for (;;) {
        const double eps = r.sign() * r.lg(1e-5, 0.3);
        const int how = static_cast<int>(r.i(0, 4));
        if (slow) {
          pose = reg::pose_of((Eigen::Quaterniond(pose.linear()) * reg::rotation_by(twist * r.u(0.2, 1) * axis)).normalized(), pose.translation() + step * r.u(0.2, 1) * heading);
          if (std::abs(travel(pose, last) - 1) > 1e-6 && std::abs(turn(pose, last) - 1) > 1e-6) {break;}
          continue;
        }
        if (r.chance(0.1)) {break;}        // the same pose again
        const double d = how == 0 ? 1 + eps : how == 1 ? 0.999 * r.u() : how == 2 ? r.u(1.001, 5) : 0.2 * r.u();
        const double a = how == 3 ? 2 * std::asin(std::min(0.1 * (1 + eps), 1.)) : how == 4 ? r.u(0, M_PI) : 0.15 * r.u();
        pose = reg::pose_of((Eigen::Quaterniond(from.linear()) * reg::rotation_by(a * reg::random_unit(r))).normalized(), from.translation() + d * reg::random_unit(r));
        if (std::abs(travel(pose, last) - 1) > 1e-6 && std::abs(turn(pose, last) - 1) > 1e-6) {break;}
      }
    }
    s.pose = pose;
    s.flip = r.chance(0.3);
    s.dense = true;
    const int np = static_cast<int>(k < large ? r.i(30000, 80000) : r.chance(0.25) ? 0 : r.i(1, 6));
    if (k < large) {vh::count("large_scans");}
    for (int i = 0; i < np; i++) {
      s.points.push_back(PointXYZCR(static_cast<float>(size * r.n()), static_cast<float>(size * r.n()), static_cast<float>(size * r.n()), static_cast<float>(r.n()), static_cast<uint16_t>(r.i(0, 65535))));
    }
    if (np && (!any || travel(pose, last) >= 1 || turn(pose, last) >= 1)) {last = pose; any = true;}
    v.push_back(s);
  }
  return v;
}

struct Want {std::vector<PointXYZCR> points; std::vector<double> tol;};
class Reference
{
public:
  void add(const Scan & s)
  {
    if (s.points.empty()) {vh::count("empty_scans"); return;}
    if (any_) {
      const double d = travel(s.pose, last_), a = turn(s.pose, last_);
      if (std::abs(d - 1) <= 1e-6 || std::abs(a - 1) <= 1e-6) {unsure = true; return;}
      if (d < 1 && a < 1) {vh::count("too_close"); return;}
      vh::count(d >= 1 ? a >= 1 ? "moved_and_turned" : "moved" : "turned");
    } else {vh::count("first_scans");}
    any_ = true;
    last_ = s.pose;
    for (const auto & p : s.points) {
      const Eigen::Vector3d x(p.x, p.y, p.z), w = s.pose * x;
      want.points.push_back(PointXYZCR(static_cast<float>(w(0)), static_cast<float>(w(1)), static_cast<float>(w(2)), p.curvature, p.ring));
      want.tol.push_back(1e-6 * (x.norm() + s.pose.translation().norm()) + 1e-30);
    }
  }
  Want want;
  bool unsure = false;

private:
  bool any_ = false;
  Eigen::Isometry3d last_;
};

static void compare(const char * what, const pcl::PointCloud<PointXYZCR> & got, const Want & w)
{
  VH_CHECK(got.size() == w.points.size(), "count", "%s: %zu points, expected %zu", what, got.size(), w.points.size());
  for (size_t i = 0; i < got.size(); i++) {
    const auto & g = got[i];
    const auto & p = w.points[i];
    VH_CHECK((Eigen::Vector3d(g.x, g.y, g.z) - Eigen::Vector3d(p.x, p.y, p.z)).norm() <= w.tol[i], "point", "%s: point %zu is %.9g %.9g %.9g, expected %.9g %.9g %.9g", what, i, g.x, g.y, g.z, p.x, p.y, p.z);
    VH_CHECK(g.curvature == p.curvature && g.ring == p.ring, "channel", "%s: point %zu has curvature %g ring %u, expected %g %u", what, i, g.curvature, g.ring, p.curvature, p.ring);
  }
}
static std::string describe(const Scan & s)
{
  return vh::fmt(" (%lld: %zu points at %s%s)", static_cast<long long>(s.stamp), s.points.size(), reg::shown(s.pose).c_str(), s.flip ? " -q" : "");
}

static void node_case(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const int64_t epoch = r.of<int64_t>({0LL, 5000000000LL, 1700000000000000000LL});
  const bool burst = r.chance(0.1);       // poses arrive long after their scans
  const std::vector<Scan> scans = random_drive(r, static_cast<int>(burst ? (r.chance(0.1) ? 990 : r.i(20, 150)) : r.chance(0.05) ? r.i(200, 900) : r.i(0, 20)), epoch);
  if (scans.size() >= 200) {vh::count("long_drives");}
  shim::reset();
  Reference ref;
  std::string log;
  bool ran = false;
  std::exception_ptr err;
  const bool old_file = r.chance(0.3);
  const std::string old = "not a map";
  if (old_file) {std::ofstream("maps/edge.pcd") << old;}
  shim::bus().on_executor_spin = [&]() {
      ran = true;
      try {
        if (burst) {
          const bool clouds_first = r.chance(0.7);
          for (int half = 0; half < 2; half++) {
            for (const auto & s : scans) {
              if ((half == 0) == clouds_first) {shim::deliver("scan_edge", cloud_msg(s));} else {shim::deliver("pose", pose_msg(s));}
            }
          }
          for (const auto & s : scans) {ref.add(s); log += describe(s);}
          vh::count("bursts");
          return;
        }
        for (const auto & s : scans) {
          const int what = static_cast<int>(r.chance(0.7) ? r.i(0, 1) : r.i(2, 5));
          log += describe(s) + vh::fmt("%d", what);
          vh::note(log);
          Scan o = s;       // what comes with the wrong stamp
          o.stamp = s.stamp + r.of<int64_t>({1, -1, 1000000000, -1000000000, 500});
          for (const auto & q : scans) {if (q.stamp == o.stamp) {o.stamp = s.stamp + 7777777777777LL + s.stamp % 1000;}}
          if (what == 0) {shim::deliver("scan_edge", cloud_msg(s)); shim::deliver("pose", pose_msg(s));
          } else if (what == 1) {shim::deliver("pose", pose_msg(s)); shim::deliver("scan_edge", cloud_msg(s));
          } else if (what == 2) {shim::deliver("scan_edge", cloud_msg(s)); vh::count("unpaired"); continue;
          } else if (what == 3) {shim::deliver("pose", pose_msg(s)); vh::count("unpaired"); continue;
          } else {
            shim::deliver("scan_edge", cloud_msg(what == 4 ? s : o));
            shim::deliver("pose", pose_msg(what == 4 ? o : s));
            vh::count("stamps_differ");
            continue;
          }
          ref.add(s);
        }
      } catch (...) {err = std::current_exception();}
    };
  char name[] = "app";
  char * argv[] = {name, nullptr};
  const int rc = app_main(1, argv);
  if (err) {std::rethrow_exception(err);}
  vh::note(log);
  c.desc = log.substr(0, 400);
  c.mark(log);
  VH_CHECK(ran && rc == 0, "node-not-spun", "main() returned %d%s", rc, ran ? "" : " without spinning");
  VH_CHECK(shim::bus().total_published() == 0, "published", "the mapping node published");
  const bool exists = std::filesystem::exists("maps/edge.pcd");
  if (ref.unsure) {vh::count("unsure"); return;}
  if (ref.want.points.empty()) {
    if (old_file) {
      std::ifstream f("maps/edge.pcd");
      std::string text((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
      VH_CHECK(exists && text == old, "empty-map", "an empty map changed the file of an older one");
    } else {VH_CHECK(!exists, "empty-map", "an empty map was written");}
    vh::count("empty_maps");
    return;
  }
  c.nontrivial = true;
  VH_CHECK(exists, "saved", "no maps/edge.pcd was written for %zu points", ref.want.points.size());
  pcl::PointCloud<PointXYZCR> got;
  VH_CHECK(pcl::io::loadPCDFile<PointXYZCR>("maps/edge.pcd", got) == 0, "saved", "maps/edge.pcd cannot be read");
  compare("maps/edge.pcd", got, ref.want);
  vh::count("maps");
  vh::count("points", got.size());
}

// the builder, looked at after every scan through the file it saves
static void builder_case(vh::Case & c)
{
  vh::Rng & r = c.rng;
  MapBuilder<PointXYZCR> builder;
  Reference ref;
  std::string log;
  for (const auto & s : random_drive(r, static_cast<int>(r.chance(0.03) ? r.i(100, 250) : r.i(1, 12)), 1000)) {
    log += describe(s);
    vh::note(log);
    const auto cloud = std::make_shared<const Cloud2>(cloud_msg(s));
    const auto pose = std::make_shared<const PoseMsg>(pose_msg(s));
    const Cloud2 before = *cloud;
    builder.Callback(cloud, pose);
    ref.add(s);
    VH_CHECK(cloud->data == before.data, "callers-cloud", "the message was changed");
    if (ref.unsure) {vh::count("unsure"); return;}
    std::filesystem::remove("maps/step.pcd");
    builder.SaveMap("maps/step.pcd");
    VH_CHECK(std::filesystem::exists("maps/step.pcd") == !ref.want.points.empty(), "saved", "file written: %d, points: %zu", std::filesystem::exists("maps/step.pcd"), ref.want.points.size());
    if (ref.want.points.empty()) {vh::count("empty_maps"); continue;}
    pcl::PointCloud<PointXYZCR> got;
    VH_CHECK(pcl::io::loadPCDFile<PointXYZCR>("maps/step.pcd", got) == 0, "saved", "the file cannot be read");
    compare("map", got, ref.want);
    c.nontrivial = true;
    vh::count("maps");
  }
  c.desc = log.substr(0, 400);
  c.mark(log);
}

void vh_case(vh::Case & c)
{
  const std::string dir = (vh::opt().scratch.empty() ? std::string("/tmp") : vh::opt().scratch) + "/map";
  std::filesystem::remove_all(dir + "/maps");
  std::filesystem::create_directories(dir + "/maps");
  if (chdir(dir.c_str()) != 0) {perror("chdir"); exit(3);}
  if (c.rng.chance(0.6)) {node_case(c);} else {builder_case(c);}
}
}  // namespace monitor

void vh_case(vh::Case & c) {monitor::vh_case(c);}
