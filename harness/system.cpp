// The launched systems: every node of a launch configuration, with the names and parameters its launch file gives it, on one bus.
// mode: C29 (wiring) and C30 (the whole chain follows the vehicle).
// What the launch files start comes from harness/launch_dump.py (VERIF_PREPARED). The converter is Python; its topics come from
// there too, and the harness publishes what the converter makes of a sweep (C28) in its place.
#include "vh.hpp"
#include "reg_ref.hpp"
#include <unistd.h>
#include <deque>
#include <filesystem>
#include <fstream>
#include <pcl/io/pcd_io.h>
#include <pcl/point_types.h>
#include <rclcpp/rclcpp.hpp>
#include <geometry_msgs/msg/pose_stamped.hpp>
#include <geometry_msgs/msg/pose_with_covariance_stamped.hpp>
#include <geometry_msgs/msg/twist_with_covariance_stamped.hpp>
#include <nav_msgs/msg/odometry.hpp>
#include <sensor_msgs/msg/point_cloud2.hpp>
#include <pcl_conversions/pcl_conversions.h>

int extraction_main(int, char **);
int localization_main(int, char **);
int mapping_main(int, char **);
int ekf_main(int, char **);

namespace monitor
{
using Cloud2 = sensor_msgs::msg::PointCloud2;
using PoseCov = geometry_msgs::msg::PoseWithCovarianceStamped;
using PoseMsg = geometry_msgs::msg::PoseStamped;
using Twist = geometry_msgs::msg::TwistWithCovarianceStamped;
using Odom = nav_msgs::msg::Odometry;

struct Param {std::string name, kind, value;};
struct Node
{
  std::string package, executable, name, ns;
  std::vector<std::pair<std::string, std::string>> remaps;
  std::vector<Param> params;
  std::vector<shim::Endpoint> ends;             // of the node as it runs
  std::map<std::string, shim::ParamValue> declared;
};
struct Config
{
  std::string name; int variant = 0;
  std::map<std::string, std::string> args;
  std::vector<Node> nodes;
  std::vector<std::string> errors;
  Node * find(const std::string & package)
  {
    for (auto & n : nodes) {if (n.package == package) {return &n;}}
    return nullptr;
  }
};
static std::map<std::string, std::vector<Config>> all_configs;
static std::map<std::string, std::vector<std::string>> executables;

static std::string full(const Node & n, const std::string & name)
{
  return !name.empty() && name[0] == '/' ? name : (n.ns == "/" ? "" : n.ns) + "/" + name;
}
// the name a topic of the node gets, as rcl does it: both sides expanded in the namespace of the node, the first rule that fits
static std::string resolved(const Node & n, const std::string & topic)
{
  for (const auto & r : n.remaps) {
    if (full(n, r.first) == full(n, topic)) {return full(n, r.second);}
  }
  return full(n, topic);
}

static void load_configs()
{
  const char * path = getenv("VERIF_PREPARED");
  std::ifstream f(path ? path : "");
  if (!f) {fprintf(stderr, "no VERIF_PREPARED\n"); exit(3);}
  std::string line;
  Config c;
  while (std::getline(f, line)) {
    std::vector<std::string> w;
    std::string item;
    for (const char ch : line) {if (ch == '\t') {w.push_back(item); item.clear();} else {item += ch;}}
    w.push_back(item);
    const std::string & k = w[0];
    if (k == "exe") {executables[w.at(1)].push_back(w.at(2));
    } else if (k == "config") {c = Config(); c.name = w.at(1); c.variant = std::stoi(w.at(2));
    } else if (k == "arg") {c.args[w.at(1)] = w.at(2);
    } else if (k == "node") {Node n; n.package = w.at(1); n.executable = w.at(2); n.name = w.at(3); n.ns = w.at(4); c.nodes.push_back(n);
    } else if (k == "remap") {c.nodes.back().remaps.emplace_back(w.at(1), w.at(2));
    } else if (k == "param") {c.nodes.back().params.push_back({w.at(1), w.at(2), w.at(3)});
    } else if (k == "end") {
      Node & n = c.nodes.back();
      n.ends.push_back({w.at(1) == "pub", n.name, w.at(2), shim::norm(resolved(n, w.at(2))), w.at(3) == "PointCloud2" ? typeid(Cloud2) : typeid(void), {w.at(4) == "1", w.at(5) == "1", true, 0}});
    } else if (k == "error") {c.errors.push_back(w.at(1));
    } else if (k == "endconfig") {all_configs[c.name].push_back(c);}
  }
}

static bool compatible(const shim::QosInfo & pub, const shim::QosInfo & sub)
{
  return !(sub.reliable && !pub.reliable) && !(sub.transient_local && !pub.transient_local);
}

// ------------------------------------------------------------ the running system
struct Sent {shim::TopicKey key; std::shared_ptr<const void> msg; shim::QosInfo qos;};
class System
{
public:
  explicit System(const Config & c) : config(c) {}
  // starts every node, runs f, and lets every node end
  void run(const std::function<void()> & f)
  {
    shim::reset();
    shim::bus().on_publish = [this](const shim::TopicKey & k, std::shared_ptr<const void> m, const shim::QosInfo & q) {queue.push_back({k, m, q});};
    f_ = f;
    start(0);
    if (err_) {std::rethrow_exception(err_);}
    VH_CHECK(ran_, "not-started", "the %s nodes were not all started", config.name.c_str());
  }
  // hands over everything that was published
  void pump()
  {
    int n = 0;
    while (!queue.empty()) {
      const Sent s = queue.front();
      queue.pop_front();
      give(s);
      VH_CHECK(++n < 10000, "endless", "the nodes keep each other busy for ever");
    }
  }
  template<typename M>
  size_t send(const std::string & topic, const M & m, const shim::QosInfo & q = shim::QosInfo())
  {
    const size_t n = give({shim::TopicKey{shim::norm(topic), typeid(M)}, std::make_shared<const M>(m), q});
    pump();
    return n;
  }
  template<typename M>
  std::vector<std::shared_ptr<const M>> take(const std::string & topic)
  {
    const auto v = shim::bus().published<M>(topic);
    shim::bus().pubs.erase(shim::TopicKey{shim::norm(topic), typeid(M)});
    return v;
  }
  void tick() {shim::fire_timers(); pump();}
  Config config;
  std::deque<Sent> queue;

private:
  size_t give(const Sent & s)
  {
    const auto it = shim::bus().subs.find(s.key);
    if (it == shim::bus().subs.end()) {return 0;}
    const auto callbacks = it->second;
    const auto & qos = shim::bus().subs_qos.at(s.key);
    size_t n = 0;
    for (size_t i = 0; i < callbacks.size(); i++) {
      if (!compatible(s.qos, qos.at(i))) {continue;}
      callbacks[i](s.msg);
      n++;
    }
    return n;
  }
  void start(size_t i)
  {
    if (i == config.nodes.size()) {
      shim::bus().remap = nullptr;
      shim::bus().params.clear();
      ran_ = true;
      try {f_();} catch (...) {err_ = std::current_exception();}
      return;
    }
    Node & n = config.nodes[i];
    auto & b = shim::bus();
    b.remap = [&n](const std::string & topic) {return resolved(n, topic);};
    b.params.clear();
    for (const auto & p : n.params) {
      if (p.kind == "bool") {b.params[p.name] = p.value == "true";
      } else if (p.kind == "int") {b.params[p.name] = static_cast<int64_t>(std::stoll(p.value));
      } else if (p.kind == "double") {b.params[p.name] = std::stod(p.value);
      } else {b.params[p.name] = p.value;}
    }
    b.declared.clear();
    const size_t before = b.endpoints.size();
    bool spun = false;
    const auto next = [&]() {
        spun = true;
        n.declared = shim::bus().declared;
        const auto & e = shim::bus().endpoints;
        n.ends.assign(e.begin() + before, e.end());
        start(i + 1);
      };
    b.on_spin = [&](std::shared_ptr<rclcpp::Node>) {next();};
    b.on_executor_spin = next;
    char name[] = "app";
    char * argv[] = {name, nullptr};
    if (n.package == "point_type_converter") {start(i + 1); return;}
    int rc = 0;
    if (n.package == "lidar_feature_extraction") {rc = extraction_main(1, argv);
    } else if (n.package == "lidar_feature_localization") {rc = localization_main(1, argv);
    } else if (n.package == "lidar_feature_mapping") {rc = mapping_main(1, argv);
    } else if (n.package == "ekf_localizer") {rc = ekf_main(1, argv);
    } else if (n.package == "lidar_feature_map_loader") {
      VH_CHECK(!shim::components().empty(), "not-started", "no map loader component");
      const auto keep = shim::components().begin()->second(rclcpp::NodeOptions());
      next();
      return;
    } else {start(i + 1); return;}      // a node of which nothing is required here
    VH_CHECK(err_ || (spun && rc == 0), "not-started", "%s/%s returned %d%s", n.package.c_str(), n.executable.c_str(), rc, spun ? "" : " without spinning");
  }
  std::function<void()> f_;
  std::exception_ptr err_;
  bool ran_ = false;
};

// ------------------------------------------------------------ the world: a yard with walls and pillars, and a spinning lidar
struct Box {double x0, x1, y0, y1;};
class World
{
public:
  explicit World(vh::Rng & r)
  {
    hx = r.u(18, 28); hy = r.u(14, 22);
    floor = -r.u(1.5, 2.2);
    cx = r.u(-1, 1); cy = r.u(-1, 1);
    const int n = static_cast<int>(r.i(12, 18));
    for (int tries = 0; static_cast<int>(boxes.size()) < n && tries < 4000; tries++) {
      const double a = r.u(0.15, 0.6), b = r.u(0.15, 0.6), x = cx + r.u(-1, 1) * (hx - 4.5), y = cy + r.u(-1, 1) * (hy - 4.5);
      bool ok = std::hypot(x - cx, y - cy) > 8.5;           // the vehicle drives inside
      for (const auto & o : boxes) {ok = ok && std::hypot((o.x0 + o.x1) / 2 - x, (o.y0 + o.y1) / 2 - y) > 5;}
      for (const double v : {x - a, x + a, y - b, y + b}) {ok = ok && std::abs(v) > 1;}       // planes through the origin have no normal form
      if (ok) {boxes.push_back({x - a, x + a, y - b, y + b});}
    }
  }
  // distance along the ray, and whether it met something within the range
  double cast(const Eigen::Vector3d & o, const Eigen::Vector3d & d) const
  {
    double best = 200;
    const auto take = [&](double t) {if (t > 0 && t < best) {best = t;}};
    if (d(2) < 0) {take((floor - o(2)) / d(2));}
    if (d(0) != 0) {take((cx + (d(0) > 0 ? hx : -hx) - o(0)) / d(0));}
    if (d(1) != 0) {take((cy + (d(1) > 0 ? hy : -hy) - o(1)) / d(1));}
    for (const auto & b : boxes) {
      double lo = 0, hi = best;
      const double bounds[2][2] = {{b.x0, b.x1}, {b.y0, b.y1}};
      for (int k = 0; k < 2; k++) {
        if (std::abs(d(k)) < 1e-12) {if (o(k) < bounds[k][0] || o(k) > bounds[k][1]) {hi = -1;} continue;}
        double t0 = (bounds[k][0] - o(k)) / d(k), t1 = (bounds[k][1] - o(k)) / d(k);
        if (t0 > t1) {std::swap(t0, t1);}
        lo = std::max(lo, t0); hi = std::min(hi, t1);
      }
      if (lo < hi && lo > 0) {take(lo);}
    }
    return best;
  }
  double distance(const Eigen::Vector3d & p) const          // to the nearest surface
  {
    double best = std::min({std::abs(p(2) - floor), std::abs(std::abs(p(0) - cx) - hx), std::abs(std::abs(p(1) - cy) - hy)});
    for (const auto & b : boxes) {
      const double dx = std::max({b.x0 - p(0), 0., p(0) - b.x1}), dy = std::max({b.y0 - p(1), 0., p(1) - b.y1});
      const double in = std::min({p(0) - b.x0, b.x1 - p(0), p(1) - b.y0, b.y1 - p(1)});
      best = std::min(best, dx == 0 && dy == 0 ? std::max(in, 0.) : std::hypot(dx, dy));
    }
    return best;
  }
  double hx, hy, floor, cx, cy;
  std::vector<Box> boxes;
};

static builtin_interfaces::msg::Time stamp_of(int64_t ns)
{
  builtin_interfaces::msg::Time t;
  t.sec = static_cast<int32_t>(ns / 1000000000LL);
  t.nanosec = static_cast<uint32_t>(ns % 1000000000LL);
  return t;
}
static int64_t ns_of(const builtin_interfaces::msg::Time & t) {return t.sec * 1000000000LL + t.nanosec;}

// what the converter publishes for a sweep (see C28)
static Cloud2 sweep(const World & w, const Eigen::Isometry3d & pose, int64_t stamp, int rings, int columns, double noise, vh::Rng & r)
{
  Cloud2 m;
  m.header.stamp = stamp_of(stamp);
  m.header.frame_id = "velodyne";
  const char * names[] = {"x", "y", "z", "padding", "intensity", "ring"};
  for (int k = 0; k < 6; k++) {
    sensor_msgs::msg::PointField f;
    f.name = names[k]; f.offset = 4 * k; f.count = 1;
    f.datatype = k == 5 ? sensor_msgs::msg::PointField::UINT16 : sensor_msgs::msg::PointField::FLOAT32;
    if (k != 3) {m.fields.push_back(f);}
  }
  m.point_step = 32;
  for (int c = 0; c < columns; c++) {
    for (int k = 0; k < rings; k++) {
      const double az = M_PI - 2 * M_PI * (c + 0.25) / columns, el = (-15. + 30. * k / (rings - 1)) * M_PI / 180;
      const Eigen::Vector3d d(std::cos(el) * std::cos(az), std::cos(el) * std::sin(az), std::sin(el));
      const double t = w.cast(pose.translation(), pose.linear() * d);
      if (t > 120) {continue;}
      const Eigen::Vector3d p = (t + noise * r.n()) * d;
      const float v[5] = {static_cast<float>(p(0)), static_cast<float>(p(1)), static_cast<float>(p(2)), 0, 10};
      const uint16_t ring = static_cast<uint16_t>(k);
      const size_t at = m.data.size();
      m.data.resize(at + 32);
      std::memcpy(&m.data[at], v, sizeof(v));
      std::memcpy(&m.data[at + 20], &ring, 2);
    }
  }
  m.height = 1;
  m.width = static_cast<uint32_t>(m.data.size() / 32);
  m.row_step = static_cast<uint32_t>(m.data.size());
  m.is_dense = true;
  return m;
}
static pcl::PointCloud<pcl::PointXYZ> points_of(const Cloud2 & m)
{
  pcl::PointCloud<pcl::PointXYZ> c;
  pcl::fromROSMsg(m, c);
  return c;
}
template<typename P>
static void fill(P & p, const Eigen::Isometry3d & t)
{
  const Eigen::Quaterniond q(t.linear());
  p.position.x = t.translation()(0); p.position.y = t.translation()(1); p.position.z = t.translation()(2);
  p.orientation.w = q.w(); p.orientation.x = q.x(); p.orientation.y = q.y(); p.orientation.z = q.z();
}
template<typename P>
static Eigen::Isometry3d isometry(const P & p)
{
  return reg::pose_of(Eigen::Quaterniond(p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z), Eigen::Vector3d(p.position.x, p.position.y, p.position.z));
}
static Eigen::Isometry3d planar(double x, double y, double yaw)
{
  return reg::pose_of(Eigen::Quaterniond(Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ())), Eigen::Vector3d(x, y, 0));
}
static void save(const std::string & path, const std::vector<Eigen::Vector3d> & ps)
{
  pcl::PointCloud<pcl::PointXYZ> c;
  for (const auto & p : ps) {c.push_back(pcl::PointXYZ(static_cast<float>(p(0)), static_cast<float>(p(1)), static_cast<float>(p(2))));}
  pcl::io::savePCDFileBinary(path, c);
}

// ------------------------------------------------------------ C29
static const shim::Endpoint * endpoint(const Node & n, bool pub, std::type_index type, const std::string & asked)
{
  const shim::Endpoint * found = nullptr;
  for (const auto & e : n.ends) {
    if (e.pub == pub && e.type == type && (asked.empty() || shim::norm(e.asked) == asked)) {found = &e;}
  }
  return found;
}
static std::string ends_shown(const Node & n)
{
  std::string s;
  for (const auto & e : n.ends) {s += vh::fmt("\n  %s %s: %s -> /%s%s%s", n.package.c_str(), e.pub ? "pub" : "sub", e.asked.c_str(), e.topic.c_str(), e.qos.reliable ? "" : " best effort", e.qos.transient_local ? " transient local" : "");}
  return s;
}
// what one node publishes under a name reaches the other node's subscription of a name
static void linked(Config & c, const char * from, const char * out, const char * to, const char * in, std::type_index type)
{
  Node * a = c.find(from), * b = c.find(to);
  VH_CHECK(a && b, "node-missing", "%s: %s is not launched", c.name.c_str(), a ? to : from);
  const auto * p = endpoint(*a, true, type, out);
  const auto * s = endpoint(*b, false, type, in);
  VH_CHECK(p && s, "endpoint-missing", "%s: no %s of this type%s%s", c.name.c_str(), p ? in : out, ends_shown(*a).c_str(), ends_shown(*b).c_str());
  VH_CHECK(p->topic == s->topic, "not-connected", "%s: %s publishes %s as /%s, %s listens for %s on /%s", c.name.c_str(), from, out, p->topic.c_str(), to, in, s->topic.c_str());
  VH_CHECK(compatible(p->qos, s->qos), "qos", "%s: /%s is published %s, %s and wanted %s, %s", c.name.c_str(), p->topic.c_str(), p->qos.reliable ? "reliable" : "best effort",
    p->qos.transient_local ? "transient local" : "volatile", s->qos.reliable ? "reliable" : "best effort", s->qos.transient_local ? "transient local" : "volatile");
  vh::count("links");
}
// the topic that a launch argument names is the one the node uses
static void named(Config & c, const char * arg, const char * package, bool pub, const char * asked, std::type_index type)
{
  const auto it = c.args.find(arg);
  Node * n = c.find(package);
  if (it == c.args.end()) {vh::count("arguments_absent"); return;}
  VH_CHECK(n, "node-missing", "%s: %s is not launched", c.name.c_str(), package);
  const auto * e = endpoint(*n, pub, type, asked);
  VH_CHECK(e, "endpoint-missing", "%s: no %s of this type%s", c.name.c_str(), asked, ends_shown(*n).c_str());
  VH_CHECK("/" + e->topic == it->second, "argument", "%s: the argument %s is %s, but %s %s %s on /%s", c.name.c_str(), arg, it->second.c_str(), package,
    pub ? "publishes" : "listens for", asked, e->topic.c_str());
  vh::count("arguments");
}
static void dummy_maps(vh::Rng & r)
{
  std::vector<Eigen::Vector3d> ps;
  for (int i = 0; i < 60; i++) {ps.push_back(Eigen::Vector3d(r.u(-9, 9), r.u(-9, 9), r.u(2, 9)));}
  save("maps/edge.pcd", ps);
  ps.pop_back();
  save("maps/surface.pcd", ps);
}
static std::string value_shown(const shim::ParamValue & v)
{
  return std::visit([](const auto & x) {std::ostringstream s; s << std::boolalpha << x; return s.str();}, v);
}

static void wiring_case(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const std::string which = r.chance(0.6) ? "localization" : "mapping";
  const auto & list = all_configs[which];
  VH_CHECK(!list.empty(), "launch", "no %s configuration", which.c_str());
  const Config & conf = list[c.id < 2 * 8 ? 0 : r.i(0, list.size() - 1)];
  c.desc = which + vh::fmt(", variant %d", conf.variant);
  vh::note(c.desc);
  c.mark(c.desc);
  for (const auto & a : conf.args) {c.mark(a.second);}
  for (const auto & e : conf.errors) {vh::fail("launch", which + ": " + e);}
  for (const auto & n : conf.nodes) {
    const auto it = executables.find(n.package);
    if (it == executables.end()) {vh::count("executables_unknown"); continue;}
    VH_CHECK(std::count(it->second.begin(), it->second.end(), n.executable) > 0, "executable", "%s starts %s/%s, which the package does not build", which.c_str(), n.package.c_str(), n.executable.c_str());
    vh::count("executables");
  }
  dummy_maps(r);
  System s(conf);
  const std::type_index cloud = typeid(Cloud2);
  s.run([&]() {
      Config & k = s.config;
      for (auto & n : k.nodes) {
        if (n.package == "point_type_converter") {continue;}
        for (const auto & p : n.params) {
          if (p.name == "use_sim_time") {continue;}         // declared by every ROS node
          const auto it = n.declared.find(p.name);
          VH_CHECK(it != n.declared.end(), "parameter", "%s gives %s the parameter %s, which it does not have", which.c_str(), n.package.c_str(), p.name.c_str());
          const bool same = p.kind == "double" ? std::holds_alternative<double>(it->second) && std::get<double>(it->second) == std::stod(p.value) : value_shown(it->second) == p.value;
          VH_CHECK(same, "parameter", "%s sets %s of %s to %s, the node uses %s", which.c_str(), p.name.c_str(), n.package.c_str(), p.value.c_str(), value_shown(it->second).c_str());
          vh::count("parameters");
        }
      }
      // no two different types on one topic
      std::map<std::string, std::type_index> types;
      for (const auto & n : k.nodes) {
        for (const auto & e : n.ends) {
          const auto it = types.emplace(e.topic, e.type).first;
          VH_CHECK(it->second == e.type, "types", "%s: /%s has two types%s", which.c_str(), e.topic.c_str(), ends_shown(n).c_str());
        }
      }
      linked(k, "point_type_converter", "points_converted", "lidar_feature_extraction", "points_raw", cloud);
      named(k, "input_sensor_points_topic", "point_type_converter", false, "points_raw", cloud);
      // the extraction must not hear the raw clouds, which have no ring channel it knows, nor the converter its own
      Node * conv = k.find("point_type_converter");
      const auto * in = endpoint(*conv, false, cloud, "points_raw");
      VH_CHECK(shim::bus().subs.count(shim::TopicKey{in->topic, cloud}) == 0, "raw-clouds", "%s: a node besides the converter listens to the raw clouds on /%s", which.c_str(), in->topic.c_str());
      if (which == "mapping") {
        linked(k, "lidar_feature_extraction", "scan_edge", "lidar_feature_mapping", "scan_edge", cloud);
        named(k, "input_pose_topic", "lidar_feature_mapping", false, "pose", typeid(PoseMsg));
      } else {
        linked(k, "lidar_feature_extraction", "scan_edge", "lidar_feature_localization", "scan_edge", cloud);
        linked(k, "lidar_feature_extraction", "scan_surface", "lidar_feature_localization", "scan_surface", cloud);
        linked(k, "lidar_feature_localization", "estimated_pose", "ekf_localizer", "in_pose_with_covariance", typeid(PoseCov));
        linked(k, "ekf_localizer", "ekf_odom", "lidar_feature_localization", "optimization_start_odom", typeid(Odom));
        named(k, "lidar_feature_pose_topic", "lidar_feature_localization", true, "estimated_pose", typeid(PoseCov));
        named(k, "ekf_odometry", "ekf_localizer", true, "ekf_odom", typeid(Odom));
        named(k, "input_initial_pose_topic", "ekf_localizer", false, "initialpose", typeid(PoseCov));
        named(k, "input_twist_topic", "ekf_localizer", false, "in_twist_with_covariance", typeid(Twist));
        // the maps on show are the ones the localization uses
        int shown = 0;
        for (const auto & n : k.nodes) {
          if (n.package != "lidar_feature_map_loader") {continue;}
          for (const auto & kv : {std::make_pair("edge_map_topic", 60u), std::make_pair("surface_map_topic", 59u)}) {
            const auto it = k.args.find(kv.first);
            if (it == k.args.end() || n.ends.empty() || "/" + n.ends[0].topic != it->second) {continue;}
            const auto ms = shim::bus().published<Cloud2>(n.ends[0].topic);
            VH_CHECK(ms.size() == 1 && ms[0]->width * ms[0]->height == kv.second, "map-on-show", "%s: %zu clouds, %u points on /%s, expected the %u of its map", which.c_str(), ms.size(),
              ms.empty() ? 0 : ms[0]->width * ms[0]->height, n.ends[0].topic.c_str(), kv.second);
            VH_CHECK(n.ends[0].qos.transient_local, "map-on-show", "the map on /%s is not kept for late subscribers", n.ends[0].topic.c_str());
            shown++;
          }
        }
        VH_CHECK(shown == 2, "map-on-show", "%s: %d of the two maps are published under the names the arguments give", which.c_str(), shown);
      }
      c.nontrivial = true;
      vh::count("configurations_" + which);
    });
}

// ------------------------------------------------------------ C30
struct Drive
{
  double radius, speed, phase, wobble;
  double cx, cy;
  // circle with a slowly changing radius: pose, forward speed and turn rate at a time
  Eigen::Isometry3d pose(double t) const
  {
    const double a = phase + speed / radius * t, d = 1e-4;
    const Eigen::Vector2d p = at(a), q = at(a + (speed > 0 ? d : -d));
    return planar(p(0), p(1), std::atan2(q(1) - p(1), q(0) - p(0)));
  }
  Eigen::Vector2d at(double a) const
  {
    const double k = radius * (1 + wobble * std::sin(3 * a));
    return Eigen::Vector2d(cx + k * std::cos(a), cy + k * std::sin(a));
  }
};
static Drive random_drive(vh::Rng & r, const World & w)
{
  Drive d;
  d.radius = r.u(3.5, 5);
  d.speed = r.sign() * r.u(0.8, 2.5);
  d.phase = r.u(0, 2 * M_PI);
  d.wobble = r.u(0, 0.1);
  d.cx = w.cx; d.cy = w.cy;
  return d;
}

static const std::string & topic_of(Config & c, const char * package, bool pub, const char * asked, std::type_index type)
{
  Node * n = c.find(package);
  VH_CHECK(n, "node-missing", "%s is not launched", package);
  const auto * e = endpoint(*n, pub, type, asked);
  VH_CHECK(e, "endpoint-missing", "no %s of this type%s", asked, ends_shown(*n).c_str());
  return e->topic;
}

static void drive_case(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const World world(r);
  const int rings = r.of({12, 16}), columns = r.of({400, 500, 600});
  const double noise = r.of({0., 0.003, 0.01});
  const int64_t epoch = r.of<int64_t>({10LL, 1700000000LL}) * 1000000000LL + r.i(0, 999999999);
  std::filesystem::remove("maps/edge.pcd");
  std::filesystem::remove("maps/surface.pcd");
  const auto & maps = all_configs["mapping"];
  const auto & locs = all_configs["localization"];
  VH_CHECK(!maps.empty() && !locs.empty(), "launch", "no configuration");
  const Config & mapping = maps[r.i(0, maps.size() - 1)];
  const Config & localization = locs[r.i(0, locs.size() - 1)];
  for (const auto & e : mapping.errors) {vh::fail("launch", e);}
  for (const auto & e : localization.errors) {vh::fail("launch", e);}
  const std::type_index cloud = typeid(Cloud2);
  std::string log = vh::fmt("%zu pillars, %d x %d, noise %g", world.boxes.size(), rings, columns, noise);
  c.mark(log); c.mark(world.hx); c.mark(world.hy);
  vh::note(log);

  // the map: one round with known poses
  std::vector<Eigen::Vector3d> surface;
  const int stations = 10;
  const double r0 = r.u(3.8, 4.6);
  {
    System s(mapping);
    s.run([&]() {
        const std::string points = endpoint(*s.config.find("point_type_converter"), true, cloud, "points_converted")->topic;
        const std::string poses = topic_of(s.config, "lidar_feature_mapping", false, "pose", typeid(PoseMsg));
        const std::string surf = topic_of(s.config, "lidar_feature_extraction", true, "scan_surface", cloud);
        const std::string edge = topic_of(s.config, "lidar_feature_extraction", true, "scan_edge", cloud);
        for (int k = 0; k < stations; k++) {
          const double a = 2 * M_PI * k / stations;
          const Eigen::Isometry3d pose = planar(world.cx + r0 * std::cos(a), world.cy + r0 * std::sin(a), a + (k % 2 ? 1 : 0.4));
          const int64_t stamp = epoch + k * 500000000LL;
          shim::bus().now_ns = stamp;
          PoseMsg p;
          p.header.stamp = stamp_of(stamp);
          p.header.frame_id = "map";
          fill(p.pose, pose);
          const bool first = r.chance(0.5);
          if (first) {s.send(poses, p);}
          const size_t n = s.send(points, sweep(world, pose, stamp, rings, columns, noise, r));
          VH_CHECK(n > 0, "sweep-unheard", "no node of the mapping system hears the converted sweep");
          if (!first) {s.send(poses, p);}
          const auto es = s.take<Cloud2>(edge), ss = s.take<Cloud2>(surf);
          VH_CHECK(es.size() == 1 && ss.size() == 1, "features", "%zu edge and %zu surface clouds for one sweep", es.size(), ss.size());
          VH_CHECK(es[0]->width > 0 && ss[0]->width > 0, "features", "%u edge and %u surface points in a sweep of a yard with pillars", es[0]->width, ss[0]->width);
          vh::count("edges", es[0]->width);
          vh::count("surfaces", ss[0]->width);
          for (const auto & q : points_of(*ss[0])) {surface.push_back(pose * Eigen::Vector3d(q.x, q.y, q.z));}
        }
      });
  }
  pcl::PointCloud<pcl::PointXYZ> edge_map;
  VH_CHECK(std::filesystem::exists("maps/edge.pcd") && pcl::io::loadPCDFile<pcl::PointXYZ>("maps/edge.pcd", edge_map) == 0 && edge_map.size() > 0, "no-map", "the mapping system left no edge map");
  double worst = 0;
  for (const auto & p : edge_map) {worst = std::max(worst, world.distance(Eigen::Vector3d(p.x, p.y, p.z)));}
  VH_CHECK(worst <= 1e-3 + 6 * noise, "map-off", "a point of the edge map is %g m from everything (%zu points)", worst, edge_map.size());
  vh::count("map_points", edge_map.size());
  save("maps/surface.pcd", surface);
  log += vh::fmt("; map %zu edges %zu surfaces", edge_map.size(), surface.size());
  vh::note(log);

  // the drive
  const Drive drive = random_drive(r, world);
  double worst_t = 0, worst_r = 0, worst_ot = 0, worst_or = 0;
  int poses = 0, odoms = 0;
  System s(localization);
  s.run([&]() {
      Config & k = s.config;
      const std::string points = endpoint(*k.find("point_type_converter"), true, cloud, "points_converted")->topic;
      const std::string init = topic_of(k, "ekf_localizer", false, "initialpose", typeid(PoseCov));
      const std::string twist = topic_of(k, "ekf_localizer", false, "in_twist_with_covariance", typeid(Twist));
      const std::string odom = topic_of(k, "ekf_localizer", true, "ekf_odom", typeid(Odom));
      const std::string est = topic_of(k, "lidar_feature_localization", true, "estimated_pose", typeid(PoseCov));
      const int64_t t0 = epoch + 100000000000LL, tick = 20000000LL;
      const int ticks_seen = static_cast<int>(vh::opt().thorough ? r.of({60, 150, 400}) : r.of({25, 45}));
      const int64_t delay = r.of<int64_t>({0, 20, 60}) * 1000000LL;
      const auto truth = [&](int64_t ns) {return drive.pose((ns - t0) / 1e9);};
      const double vx_bias = r.u(-0.05, 0.05), wz_bias = r.u(-0.01, 0.01);
      std::deque<std::pair<int64_t, Cloud2>> sweeps;
      // now and then no sweep arrives for a while and the odometry alone tells where the next one has to be looked for
      const int lost_from = static_cast<int>(r.i(10, 20)), lost = r.chance(0.5) ? static_cast<int>(r.i(20, 50)) : 0;
      const int ticks = lost_from + lost + ticks_seen;
      for (int i = 0; i < ticks; i++) {
        const int64_t now = t0 + i * tick;
        shim::bus().now_ns = now;
        if (i == 0) {
          PoseCov p;
          p.header.stamp = stamp_of(now);
          p.header.frame_id = "map";
          const Eigen::Isometry3d off = planar(r.u(-0.2, 0.2), r.u(-0.2, 0.2), r.u(-0.04, 0.04));
          fill(p.pose.pose, Eigen::Isometry3d(truth(now) * off));
          for (int d = 0; d < 6; d++) {p.pose.covariance[d * 7] = 0.1;}
          VH_CHECK(s.send(init, p) == 1, "initial-pose-unheard", "nobody hears the initial pose");
        }
        if (i % 2 == 0) {
          const double dt = 1e-3;
          const Eigen::Isometry3d a = truth(now), b = drive.pose((now - t0) / 1e9 + dt);
          const Eigen::Isometry3d d = a.inverse() * b;
          Twist m;
          m.header.stamp = stamp_of(now);
          m.header.frame_id = "base_link";
          m.twist.twist.linear.x = d.translation()(0) / dt + vx_bias;
          m.twist.twist.angular.z = std::atan2(d.linear()(1, 0), d.linear()(0, 0)) / dt + wz_bias;
          for (int q = 0; q < 6; q++) {m.twist.covariance[q * 7] = 0.01;}
          VH_CHECK(s.send(twist, m) == 1, "twist-unheard", "nobody hears the twist");
        }
        if (i > 0 && i % 5 == 0 && !(i >= lost_from && i < lost_from + lost)) {sweeps.emplace_back(now, sweep(world, truth(now), now, rings, columns, noise, r));}
        while (!sweeps.empty() && sweeps.front().first + delay <= now) {
          VH_CHECK(s.send(points, sweeps.front().second) > 0, "sweep-unheard", "no node of the localization system hears the converted sweep");
          const auto ps = s.take<PoseCov>(est);
          VH_CHECK(ps.size() == 1, "no-pose", "%zu poses for one sweep (%d before)", ps.size(), poses);
          VH_CHECK(ns_of(ps[0]->header.stamp) == sweeps.front().first && ps[0]->header.frame_id == "map", "pose-stamp", "the pose has stamp %ld in %s for a sweep of %ld", ns_of(ps[0]->header.stamp), ps[0]->header.frame_id.c_str(), sweeps.front().first);
          const Eigen::Isometry3d got = isometry(ps[0]->pose.pose), want = truth(sweeps.front().first);
          if (poses > 0) {
            worst_t = std::max(worst_t, (got.translation() - want.translation()).norm());
            worst_r = std::max(worst_r, reg::rotation_between(got, want));
          }
          poses++;
          sweeps.pop_front();
        }
        s.tick();
        for (const auto & o : s.take<Odom>(odom)) {
          VH_CHECK(ns_of(o->header.stamp) == now && o->header.frame_id == "map", "odometry-stamp", "stamp %ld in %s at %ld", ns_of(o->header.stamp), o->header.frame_id.c_str(), now);
          odoms++;
          if (i < 20) {continue;}
          const Eigen::Isometry3d got = isometry(o->pose.pose), want = truth(now);
          worst_ot = std::max(worst_ot, (got.translation() - want.translation()).norm());
          worst_or = std::max(worst_or, reg::rotation_between(got, want));
        }
      }
      log += vh::fmt("; %d poses, off by %.3g m %.3g rad, %d odometries, off by %.3g m %.3g rad; speed %.2f", poses, worst_t, worst_r, odoms, worst_ot, worst_or, drive.speed);
      vh::note(log);
      VH_CHECK(odoms == ticks, "odometry-count", "%d odometries for %d ticks", odoms, ticks);
      if (lost > 0) {vh::count("drives_with_gap");}
      VH_CHECK(poses >= (ticks - lost) / 5 - 5, "pose-count", "%d poses in %d ticks", poses, ticks);
    });
  c.desc = log;
  c.nontrivial = true;
  if (getenv("VERIF_SHOW")) {fprintf(stderr, "%ld %s\n", c.id, log.c_str());}
  VH_CHECK(worst_t <= 0.2 && worst_r <= 0.03, "pose-off", "a published pose is %.3g m, %.3g rad from the vehicle", worst_t, worst_r);
  VH_CHECK(worst_ot <= 0.5 && worst_or <= 0.08, "odometry-off", "the odometry is %.3g m, %.3g rad from the vehicle", worst_ot, worst_or);
  vh::count("drives");
  vh::count("poses", poses);
  vh::count("odometries", odoms);
}

void vh_case(vh::Case & c)
{
  static const bool once = (load_configs(), true);
  (void)once;
  const std::string dir = (vh::opt().scratch.empty() ? std::string("/tmp") : vh::opt().scratch) + "/sys";
  std::filesystem::create_directories(dir + "/maps");
  if (chdir(dir.c_str()) != 0) {perror("chdir"); exit(3);}
  if (vh::opt().mode == "C29") {wiring_case(c);} else {drive_case(c);}
}
}  // namespace monitor

void vh_case(vh::Case & c) {monitor::vh_case(c);}
