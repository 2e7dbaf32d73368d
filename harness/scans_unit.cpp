// Local maps and odometry against lists of transformed scans. mode: C23
#include "vh.hpp"
#include "reg_ref.hpp"
#include <memory>
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
#include "lidar_feature_library/point_type.hpp"
#include "lidar_feature_localization/odometry.hpp"
#include "lidar_feature_localization/point_cloud_map.hpp"
#include "lidar_feature_localization/recent_scans.hpp"

namespace monitor
{
template<typename P> P random_point(vh::Rng & r, double size);
template<> pcl::PointXYZ random_point(vh::Rng & r, double size)
{
  return pcl::PointXYZ(static_cast<float>(size * r.n()), static_cast<float>(size * r.n()), static_cast<float>(size * r.n()));
}
template<> PointXYZCR random_point(vh::Rng & r, double size)
{
  return PointXYZCR(static_cast<float>(size * r.n()), static_cast<float>(size * r.n()), static_cast<float>(size * r.n()), static_cast<float>(r.n()), static_cast<uint16_t>(r.i(0, 65535)));
}
static bool rest_equal(const pcl::PointXYZ &, const pcl::PointXYZ &) {return true;}
static bool rest_equal(const PointXYZCR & a, const PointXYZCR & b) {return a.curvature == b.curvature && a.ring == b.ring;}

static Eigen::Isometry3d random_pose(vh::Rng & r, double reach)
{
  if (r.chance(0.1)) {return Eigen::Isometry3d::Identity();}
  if (r.chance(0.1)) {        // hardly a motion
    return reg::pose_of(reg::rotation_by(r.lg(1e-9, 0.1) * Eigen::Vector3d(r.n(), r.n(), r.n())), reach * r.lg(1e-9, 0.1) * Eigen::Vector3d(r.n(), r.n(), r.n()));
  }
  return reg::pose_of(reg::random_rotation(r), reach * Eigen::Vector3d(r.n(), r.n(), r.n()));
}

template<typename P>
struct Entry {pcl::PointCloud<P> scan; Eigen::Isometry3d pose;};

template<typename P>
static typename pcl::PointCloud<P>::Ptr random_scan(vh::Rng & r, double size)
{
  typename pcl::PointCloud<P>::Ptr s(new pcl::PointCloud<P>());
  const int n = static_cast<int>(r.chance(0.15) ? 0 : r.chance(0.002) ? r.i(1000, 20000) : r.i(1, 12));
  if (n >= 1000) {vh::count("large_scans");}
  for (int i = 0; i < n; i++) {s->push_back(random_point<P>(r, size));}
  if (n && r.chance(0.1)) {
    (*s)[0].y = NAN;          // a point without a return
    s->is_dense = false;
  }
  if (r.chance(0.2)) {s->header.frame_id = "scan"; s->header.stamp = r.i(0, 1000);}
  return s;
}

template<typename P>
static void check_points(
  const char * what, const pcl::PointCloud<P> & got, const std::vector<Entry<P>> & all, size_t from)
{
  size_t k = 0;
  for (size_t e = from; e < all.size(); e++) {
    for (const P & p : all[e].scan) {
      VH_CHECK(k < got.size(), "count", "%s: %zu points, more expected", what, got.size());
      const P & g = got[k++];
      VH_CHECK(rest_equal(g, p), "channel", "%s: other channels of point %zu differ", what, k - 1);
      const Eigen::Vector3d x(p.x, p.y, p.z);
      if (!x.allFinite()) {
        VH_CHECK(!std::isfinite(g.x) || !std::isfinite(g.y) || !std::isfinite(g.z), "no-return", "%s: a point without a return became one", what);
        vh::count("no_returns");
        continue;
      }
      const Eigen::Vector3d w = all[e].pose * x;
      const double tol = 1e-6 * (x.norm() + all[e].pose.translation().norm()) + 1e-30;
      VH_CHECK((Eigen::Vector3d(g.x, g.y, g.z) - w).norm() <= tol, "point", "%s: point %zu is %.9g %.9g %.9g, expected %.9g %.9g %.9g", what, k - 1, g.x, g.y, g.z, w(0), w(1), w(2));
      vh::count("points");
    }
  }
  VH_CHECK(k == got.size(), "count", "%s: %zu points, expected %zu", what, got.size(), k);
  VH_CHECK(static_cast<size_t>(got.width) * got.height == got.size(), "layout", "%s: %u x %u for %zu points", what, got.width, got.height, got.size());
}

template<typename P>
static void maps(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const double size = r.lg(0.1, 200);
  const bool many = r.chance(0.003);
  const int window = static_cast<int>(many ? r.i(1, 500) : r.of({0L, 1L, 2L, 5L, static_cast<long>(r.i(0, 40))}));
  RecentScans<P> scans;
  PointCloudMap<P> map(window);
  std::vector<Entry<P>> all;
  const int adds = static_cast<int>(many ? r.i(100, 500) : r.i(0, 15));
  if (many) {vh::count("long_histories");}
  c.mark(static_cast<uint64_t>(adds * 100 + window)); c.mark(size);
  c.desc = vh::fmt("%d scans, window %d", adds, window);
  for (int a = 0; a <= adds; a++) {
    VH_CHECK(scans.IsEmpty() == all.empty() && map.IsEmpty() == all.empty(), "is-empty", "after %zu scans: %d %d", all.size(), scans.IsEmpty(), map.IsEmpty());
    for (const int n : {0, 1, 2, static_cast<int>(r.i(0, 20)), static_cast<int>(all.size())}) {
      if (many && a % 37 && n > 20) {continue;}
      const auto got = scans.GetRecent(n);
      check_points("recent", *got, all, all.size() - std::min<size_t>(n, all.size()));
      if (n > static_cast<int>(all.size())) {vh::count("windows_too_large");}
      for (auto & p : *got) {p.x = 1e30f;}       // the caller's own copy
    }
    if (!many || a % 37 == 0 || a == adds) {check_points("all", *scans.GetAll(), all, 0);}
    check_points("local map", *map.GetRecent(), all, all.size() - std::min<size_t>(window, all.size()));
    vh::count("maps");
    if (a == adds) {break;}
    const auto scan = random_scan<P>(r, size);
    const pcl::PointCloud<P> before = *scan;
    const Eigen::Isometry3d pose = random_pose(r, size);
    scans.Add(pose, scan);
    map.Add(pose, scan);
    VH_CHECK(scan->size() == before.size() && scan->header.frame_id == before.header.frame_id, "callers-cloud", "changed");
    for (size_t i = 0; i < before.size(); i++) {
      VH_CHECK(rest_equal((*scan)[i], before[i]) && std::memcmp(&(*scan)[i].x, &before[i].x, 12) == 0, "callers-cloud", "point %zu was changed", i);
    }
    all.push_back({before, pose});
    for (auto & p : *scan) {p.x += 1; p.z = -7;}  // what the caller does with it afterwards does not matter
    if (r.chance(0.3)) {scan->clear();}
    c.nontrivial = true;
    if (before.empty()) {vh::count("empty_scans");}
  }
}

// Odometry with an updater that records what it is asked
using Cloud = pcl::PointCloud<pcl::PointXYZ>;
struct Call {Cloud map; Cloud scan; Eigen::Matrix4d from;};
static std::vector<Call> calls;
static std::vector<Eigen::Isometry3d> answers;
struct Updater
{
  Cloud map;
  explicit Updater(const Cloud::Ptr & m) : map(*m) {}
  Eigen::Isometry3d operator()(const Cloud::Ptr & scan, const Eigen::Isometry3d & pose) const
  {
    calls.push_back({map, *scan, pose.matrix()});
    return answers.at(calls.size() - 1);
  }
};
struct RecordingMap        // counts what odometry asks of a map and keeps what it stores
{
  PointCloudMap<pcl::PointXYZ> real;
  std::vector<Eigen::Matrix4d> poses;
  std::vector<Cloud> stored;
  explicit RecordingMap(int n) : real(n) {}
  bool IsEmpty() const {return real.IsEmpty();}
  Cloud::Ptr GetRecent() const {return real.GetRecent();}
  void Add(const Eigen::Isometry3d & p, const Cloud::Ptr & s) {poses.push_back(p.matrix()); stored.push_back(*s); real.Add(p, s);}
};
static bool same(const Cloud & a, const Cloud & b)
{
  bool e = a.size() == b.size();
  for (size_t i = 0; e && i < a.size(); i++) {e = std::memcmp(&a[i].x, &b[i].x, 12) == 0;}
  return e;
}
static void odometry(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const bool many = r.chance(0.003), track = r.chance(0.5);
  const int window = static_cast<int>(many ? r.i(1, 200) : r.i(1, 6)), n = static_cast<int>(many ? r.i(100, 400) : r.i(1, 12));
  const double step = r.lg(1e-8, 1);
  if (many) {vh::count("long_histories");}
  const double size = r.lg(0.1, 200);
  const double reach = r.chance(0.2) ? r.lg(1e3, 1e7) : size;      // the vehicle may be far from where it started
  if (reach > 2e3) {vh::count("far_runs");}
  auto map = std::make_shared<RecordingMap>(window);
  std::vector<Entry<pcl::PointXYZ>> all;
  calls.clear();
  answers.clear();
  c.mark(static_cast<uint64_t>(n * 100 + window)); c.mark(size);
  c.desc = vh::fmt("odometry over %d scans, window %d", n, window);
  if (r.chance(0.2)) {        // a map that already holds something
    const auto s = random_scan<pcl::PointXYZ>(r, size);
    const Eigen::Isometry3d p = random_pose(r, size);
    all.push_back({*s, p});
    map->Add(p, s);
    vh::count("odometry_with_map");
  }
  const size_t given = all.size();
  Odometry<Updater, RecordingMap, Cloud::Ptr> odom(map);
  VH_CHECK(odom.CurrentPose().matrix() == Eigen::Matrix4d::Identity(), "initial-pose", "not the identity");
  Eigen::Isometry3d pose = Eigen::Isometry3d::Identity();
  for (int i = 0; i < n; i++) {
    const auto scan = random_scan<pcl::PointXYZ>(r, size);
    const bool first = all.empty();
    const size_t before = calls.size();
    if (!first) {
      Eigen::Isometry3d next = random_pose(r, reach);
      if (track && i > 1) {      // a vehicle that moves, creeps or stands
        const double k = r.chance(0.1) ? 0 : step * r.u();
        next = reg::pose_of(Eigen::Quaterniond(pose.linear()) * reg::rotation_by(k * Eigen::Vector3d(r.n(), r.n(), r.n())), pose.translation() + k * size * Eigen::Vector3d(r.n(), r.n(), r.n()));
        vh::count("small_motions");
      }
      answers.push_back(next);
    }
    odom.Update(scan);
    if (first) {
      VH_CHECK(calls.size() == before, "first-scan", "the first scan was registered");
    } else {
      VH_CHECK(calls.size() == before + 1, "registrations", "%zu registrations for one scan", calls.size() - before);
      const Call & k = calls.back();
      VH_CHECK(same(k.scan, *scan), "registered-scan", "another scan was registered");
      VH_CHECK(k.from == pose.matrix(), "start-pose", "registration %d did not start from the previous pose", i);
      check_points("map of the registration", k.map, all, all.size() - std::min<size_t>(window, all.size()));
      pose = answers.back();
      vh::count("registrations");
    }
    VH_CHECK(odom.CurrentPose().matrix() == pose.matrix(), "pose", "after scan %d", i);
    all.push_back({*scan, pose});
    VH_CHECK(map->poses.size() == all.size(), "stored", "%zu scans stored, expected %zu", map->poses.size(), all.size());
    VH_CHECK(same(map->stored.back(), *scan) && map->poses.back() == pose.matrix(), "stored-pose", "scan %d was stored at another pose", i);
    check_points("odometry map", *map->real.GetRecent(), all, all.size() - std::min<size_t>(window, all.size()));
  }
  VH_CHECK(map->poses.size() == given + n, "stored", "%zu", map->poses.size());
  c.nontrivial = true;
  vh::count("odometry_runs");
}

void vh_case(vh::Case & c)
{
  const double k = c.rng.u();
  if (k < 0.3) {maps<pcl::PointXYZ>(c);} else if (k < 0.6) {maps<PointXYZCR>(c);} else {odometry(c);}
}
}  // namespace monitor

void vh_case(vh::Case & c) {monitor::vh_case(c);}
