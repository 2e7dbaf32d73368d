// The path generator, from its main on, and its variant for plain poses.
#include "vh.hpp"
#include <rclcpp/rclcpp.hpp>
#include <nav_msgs/msg/path.hpp>
#define main app_main
#include "path_generator/src/node.cpp"
#undef main

namespace monitor
{
using geometry_msgs::msg::PoseStamped;
using geometry_msgs::msg::PoseWithCovarianceStamped;
using nav_msgs::msg::Path;

static uint64_t bits(double v) {uint64_t b; std::memcpy(&b, &v, 8); return b;}
static bool same(const geometry_msgs::msg::Pose & a, const geometry_msgs::msg::Pose & b)
{
  return bits(a.position.x) == bits(b.position.x) && bits(a.position.y) == bits(b.position.y) && bits(a.position.z) == bits(b.position.z) &&
         bits(a.orientation.x) == bits(b.orientation.x) && bits(a.orientation.y) == bits(b.orientation.y) &&
         bits(a.orientation.z) == bits(b.orientation.z) && bits(a.orientation.w) == bits(b.orientation.w);
}
static std::string shown(const PoseStamped & p)
{
  return vh::fmt("%d.%09u %s (%.9g %.9g %.9g; %.9g %.9g %.9g %.9g)", p.header.stamp.sec, p.header.stamp.nanosec, p.header.frame_id.c_str(), p.pose.position.x,
    p.pose.position.y, p.pose.position.z, p.pose.orientation.w, p.pose.orientation.x, p.pose.orientation.y, p.pose.orientation.z);
}
static double hostile(vh::Rng & r)
{
  if (r.chance(0.95)) {return r.sign() * r.lg(1e-3, 1e4);}
  return r.of<double>({0., -0., 1e308, -1e-310, std::numeric_limits<double>::infinity(), std::nan("")});
}
static geometry_msgs::msg::Pose random_pose(vh::Rng & r)
{
  geometry_msgs::msg::Pose p;
  p.position.x = hostile(r); p.position.y = hostile(r); p.position.z = hostile(r);
  double q[4], n = 0;
  for (auto & v : q) {v = r.n(); n += v * v;}
  n = r.chance(0.9) ? std::sqrt(n) : 1;
  p.orientation.w = q[0] / n; p.orientation.x = q[1] / n; p.orientation.y = q[2] / n; p.orientation.z = q[3] / n;
  if (r.chance(0.05)) {p.orientation.x = hostile(r);}
  return p;
}

static void drive(vh::Case & c, const std::string & path_topic, const std::string & pose_topic, bool covariance)
{
  vh::Rng & r = c.rng;
  const int n = static_cast<int>(r.chance(0.001) ? r.i(1500, 4000) : r.chance(0.05) ? r.i(100, 300) : r.i(0, 25));
  std::vector<PoseStamped> sent;
  VH_CHECK(shim::bus().pub_qos.count(path_topic) == 1, "no-publisher", "no publisher for %s", path_topic.c_str());
  VH_CHECK(shim::bus().pub_qos.at(path_topic).transient_local && shim::bus().pub_qos.at(path_topic).reliable, "late-subscriber", "a late subscriber gets no path");
  VH_CHECK(shim::bus().sub_qos.count(pose_topic) == 1, "no-subscription", "no subscription to %s", pose_topic.c_str());
  const auto sq = shim::bus().sub_qos.at(pose_topic);
  VH_CHECK(sq.reliable && (sq.keep_all || sq.depth >= 1000), "poses-lost", "the subscription can lose poses (reliable %d, keep_all %d, depth %zu)", sq.reliable, sq.keep_all, sq.depth);
  int64_t t = r.of<int64_t>({0LL, 1000000000LL, 1700000000000000000LL});
  std::string seen;
  for (int k = 0; k < n; k++) {
    PoseStamped p;
    // stamps usually grow, but may stand still, jump back, or be unset; the frame may change
    if (!sent.empty() && r.chance(0.1)) {p = r.pick(sent);
    } else {
      t += r.of<int64_t>({100000000LL, 100000000LL, 0LL, -50000000LL, 1LL, -t});
      if (t < 0) {t = 0;}
      p.header.stamp.sec = static_cast<int32_t>(t / 1000000000LL);
      p.header.stamp.nanosec = static_cast<uint32_t>(t % 1000000000LL);
      p.header.frame_id = r.of<const char *>({"map", "map", "map", "odom", "", "a/b"});
      p.pose = random_pose(r);
    }
    sent.push_back(p);
    vh::note(vh::fmt("pose %d: ", k) + shown(p));
    if (seen.size() < 300) {seen += shown(p) + "; ";}
    c.mark(shown(p));
    size_t reached;
    if (covariance) {
      PoseWithCovarianceStamped m;
      m.header = p.header;
      m.pose.pose = p.pose;
      for (auto & v : m.pose.covariance) {v = r.n();}
      reached = shim::deliver(pose_topic, m);
    } else {reached = shim::deliver(pose_topic, p);}
    VH_CHECK(reached == 1, "no-subscription", "the pose reached %zu subscriptions", reached);
    const auto got = shim::bus().published<Path>(path_topic);
    VH_CHECK(got.size() == 1 && shim::bus().total_published() == 1, "one-path", "%zu paths and %zu messages were published for one pose", got.size(), shim::bus().total_published());
    const Path & path = *got[0];
    VH_CHECK(path.poses.size() == sent.size(), "length", "the path has %zu poses after %zu", path.poses.size(), sent.size());
    for (size_t i = 0; i < sent.size(); i++) {
      if (sent.size() > 300 && sent.size() % 97 && i > 3 && i + 3 < sent.size()) {continue;}     // long paths in full only now and then
      VH_CHECK(path.poses[i].header == sent[i].header, "pose-header", "pose %zu of %zu: %s, expected %s", i, sent.size(), shown(path.poses[i]).c_str(), shown(sent[i]).c_str());
      VH_CHECK(same(path.poses[i].pose, sent[i].pose), "pose", "pose %zu of %zu: %s, expected %s", i, sent.size(), shown(path.poses[i]).c_str(), shown(sent[i]).c_str());
    }
    VH_CHECK(path.header == p.header, "path-header", "the path has %d.%09u %s, the newest pose is %s", path.header.stamp.sec, path.header.stamp.nanosec, path.header.frame_id.c_str(), shown(p).c_str());
    vh::count("paths");
    vh::count(covariance ? "with_covariance" : "without_covariance");
    shim::bus().clear_records();
  }
  if (n > 100) {vh::count("long_paths");}
  if (n > 1000) {vh::count("very_long_paths");}
  VH_CHECK(shim::bus().total_published() == 0, "one-path", "a message was published without a pose");
  c.nontrivial = n > 0;
  c.desc = seen;
}

void vh_case(vh::Case & c)
{
  shim::reset();
  const int how = static_cast<int>(c.rng.i(0, 2));
  if (how == 0) {
    bool ran = false;
    std::exception_ptr err;
    shim::bus().on_spin = [&](std::shared_ptr<rclcpp::Node>) {
        ran = true;
        try {drive(c, "path", "pose", true);} catch (...) {err = std::current_exception();}
      };
    char name[] = "app";
    char * argv[] = {name, nullptr};
    const int rc = app_main(1, argv);
    if (err) {std::rethrow_exception(err);}
    VH_CHECK(ran && rc == 0, "node-not-spun", "main() returned %d%s", rc, ran ? "" : " without spinning");
    vh::count("mains");
    return;
  }
  const std::string out = c.rng.of<const char *>({"path", "some/path"}), in = c.rng.of<const char *>({"pose", "other_pose"});
  if (how == 1) {FromPose n(out, in); drive(c, out, in, false);} else {FromPoseWithCovariance n(out, in); drive(c, out, in, true);}
}
}  // namespace monitor

void vh_case(vh::Case & c) {monitor::vh_case(c);}
