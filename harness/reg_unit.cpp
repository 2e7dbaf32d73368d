// Registration against an independent reference. modes: C17 (residuals, Jacobians), C18 (weights, step),
// C19 (the optimizer's loop), C20 (recovery of the pose), C21 (nearest neighbours)
#include "vh.hpp"
#include "reg_ref.hpp"
#include <map>
#include <memory>
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
#include "lidar_feature_library/point_type.hpp"
#include "lidar_feature_localization/alignment.hpp"
#include "lidar_feature_localization/degenerate.hpp"
#include "lidar_feature_localization/edge.hpp"
#include "lidar_feature_localization/jacobian.hpp"
#include "lidar_feature_localization/kdtree.hpp"
#include "lidar_feature_localization/localizer.hpp"
#include "lidar_feature_localization/loam_optimization_problem.hpp"
#include "lidar_feature_localization/optimizer.hpp"
#include "lidar_feature_localization/point_to_vector.hpp"
#include "lidar_feature_localization/robust.hpp"
#include "lidar_feature_localization/surface.hpp"

namespace monitor
{
using reg::shown;
using CloudXYZ = pcl::PointCloud<pcl::PointXYZ>;
using CloudCR = pcl::PointCloud<PointXYZCR>;

static Eigen::Isometry3d random_pose(vh::Rng & r, double reach)
{
  return reg::pose_of(reg::random_rotation(r), reach * Eigen::Vector3d(r.n(), r.n(), r.n()));
}
static Eigen::Isometry3d moved(const Eigen::Isometry3d & p, const Eigen::Vector3d & rot, const Eigen::Vector3d & t)
{
  return reg::pose_of(Eigen::Quaterniond(p.linear()) * reg::rotation_by(rot), p.translation() + t);
}

// The Jacobian of row block i against central differences of the residuals in translation and rotation, and its four
// quaternion columns against the derivative of the rotation. `eval(pose)` gives the residuals with fixed neighbours.
template<typename Eval>
static void check_jacobian(
  const char * what, const Eigen::Isometry3d & pose, const reg::Mats & J, const reg::Vecs & r0,
  const std::vector<Eigen::Vector3d> & points, const std::vector<bool> & usable, Eval eval)
{
  const double h = 1e-6;
  const Eigen::Quaterniond q(pose.linear());
  std::vector<Eigen::MatrixXd> num(J.size());
  for (size_t i = 0; i < J.size(); i++) {num[i].resize(r0[i].size(), 6);}
  for (int k = 0; k < 6; k++) {
    Eigen::Vector3d a = Eigen::Vector3d::Zero(), t = Eigen::Vector3d::Zero();
    (k < 3 ? a : t)(k % 3) = h;
    const reg::Vecs rp = eval(moved(pose, a, t)), rm = eval(moved(pose, -a, -t));
    for (size_t i = 0; i < J.size(); i++) {num[i].col(k) = (rp[i] - rm[i]) / (2 * h);}
  }
  for (size_t i = 0; i < J.size(); i++) {
    if (!usable[i]) {vh::count("jacobians_unsure"); continue;}
    VH_CHECK(J[i].rows() == r0[i].size() && J[i].cols() == 7, "jacobian-size", "%s %zu: %ld x %ld", what, i, J[i].rows(), J[i].cols());
    const double size = 1. + points[i].norm() + pose.translation().norm() + r0[i].norm();
    const Eigen::MatrixXd got6 = J[i] * reg::tangent7(q);
    double best = INFINITY;
    for (int sign = 1; sign >= -1; sign -= 2) {   // q and -q are the same rotation
      Eigen::MatrixXd g = got6;
      g.leftCols(3) *= sign;
      Eigen::MatrixXd full(J[i].rows(), 7);
      full << J[i].rightCols(3) * (sign * reg::rotation_derivative(q, points[i])), J[i].rightCols(3);
      best = std::min(best, std::max((g - num[i]).norm() / (1e-6 * size * size), (full - J[i]).norm() / (1e-9 * size * size)));
    }
    VH_CHECK(best <= 1., "jacobian", "%s %zu: J M = %s, numerically %s, J %s pose %s point %s (%.3g times the tolerance)", what, i,
      shown(got6).c_str(), shown(num[i]).c_str(), shown(J[i]).c_str(), shown(pose).c_str(), shown(points[i].transpose()).c_str(), best);
    vh::count("jacobians");
  }
}

// ------------------------------------------------------------------ scenes
struct Scene
{
  std::vector<Eigen::Vector3d> edge, surface;      // map points
};
static Eigen::Vector3f f3(const Eigen::Vector3d & v) {return v.cast<float>();}
static CloudXYZ::Ptr cloud_of(const std::vector<Eigen::Vector3d> & ps)
{
  CloudXYZ::Ptr c(new CloudXYZ());
  for (const auto & p : ps) {c->push_back(pcl::PointXYZ(static_cast<float>(p(0)), static_cast<float>(p(1)), static_cast<float>(p(2))));}
  return c;
}
static Eigen::MatrixXd matrix_of(const CloudXYZ & c)
{
  Eigen::MatrixXd M(c.size(), 3);
  for (size_t i = 0; i < c.size(); i++) {M.row(i) << c[i].x, c[i].y, c[i].z;}
  return M;
}
static std::vector<Eigen::Vector3d> line_points(vh::Rng & r, const Eigen::Vector3d & c, const Eigen::Vector3d & u, int n, double step, double noise)
{
  std::vector<Eigen::Vector3d> v;
  for (int i = 0; i < n; i++) {v.push_back(c + u * step * (i - n / 2.) + noise * Eigen::Vector3d(r.n(), r.n(), r.n()));}
  return v;
}

static std::vector<Eigen::Vector3d> edge_map_points(vh::Rng & r, double reach, bool small)
{
  std::vector<Eigen::Vector3d> m;
  const int lines = small ? 1 : static_cast<int>(r.i(1, 5));
  const double noise = r.of({0., 1e-4, 0.01, 0.1});
  for (int l = 0; l < lines; l++) {
    const Eigen::Vector3d u = r.chance(0.3) ? Eigen::Vector3d(Eigen::Vector3d::Unit(r.i(0, 2))) : reg::random_unit(r);
    const auto p = line_points(r, reach * Eigen::Vector3d(r.n(), r.n(), r.n()), u, small ? static_cast<int>(r.i(2, 8)) : static_cast<int>(r.i(6, 40)), r.lg(0.02, 0.5), noise);
    m.insert(m.end(), p.begin(), p.end());
  }
  if (r.chance(0.2)) {for (int k = 0; k < 10; k++) {m.push_back(reach * Eigen::Vector3d(r.n(), r.n(), r.n()));}}
  r.shuffle(m);
  return m;
}

// residuals and Jacobians of the edge problem against the line through the neighbours

#if !defined(ONLY) || ONLY == 17
// ------------------------------------------------------------------ C17
static void residuals_alignment(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const int n = static_cast<int>(r.i(1, 12));
  const double size = r.lg(0.01, 1000);
  const Eigen::Isometry3d pose = r.chance(0.1) ? Eigen::Isometry3d::Identity() : random_pose(r, size);
  Eigen::MatrixXd X(n, 3), Y(n, 3);
  for (int i = 0; i < n; i++) {for (int k = 0; k < 3; k++) {X(i, k) = size * r.n(); Y(i, k) = size * r.n();}}
  if (r.chance(0.3)) {X.row(r.i(0, n - 1)).setZero(); vh::count("alignment_zeros");}      // points at the origin are points like others
  if (r.chance(0.3)) {Y.row(r.i(0, n - 1)).setZero();}
  if (r.chance(0.1)) {const int i = static_cast<int>(r.i(0, n - 1)); X.row(i).setZero(); Y.row(i).setZero();}
  vh::note(vh::fmt("alignment pose %s X %s Y %s", shown(pose).c_str(), shown(X).c_str(), shown(Y).c_str()));
  const AlignmentProblem problem;
  const auto args = std::make_tuple(X, Y);
  const auto got = problem.Make(args, pose);
  const reg::Mats & J = std::get<0>(got);
  const reg::Vecs & res = std::get<1>(got);
  VH_CHECK(static_cast<int>(J.size()) == n && static_cast<int>(res.size()) == n, "count", "%zu and %zu of %d", J.size(), res.size(), n);
  std::vector<Eigen::Vector3d> pts;
  for (int i = 0; i < n; i++) {
    const Eigen::Vector3d x = X.row(i), y = Y.row(i);
    const Eigen::Vector3d want = pose.linear() * x + pose.translation() - y;
    VH_CHECK(res[i].size() == 3 && (res[i] - want).norm() <= 1e-13 * (x.norm() + y.norm() + pose.translation().norm()),
      "alignment-residual", "%d: %s, expected %s", i, shown(res[i].transpose()).c_str(), shown(want.transpose()).c_str());
    pts.push_back(x);
    vh::count("alignment_residuals");
  }
  check_jacobian("alignment", pose, J, res, pts, std::vector<bool>(n, true), [&](const Eigen::Isometry3d & p) {return std::get<1>(problem.Make(args, p));});
  c.nontrivial = true;
}

static void check_edges(
  const Eigen::MatrixXd & map, const Eigen::MatrixXd & scan, int k, const Eigen::Isometry3d & pose, const reg::Mats & J, const reg::Vecs & res,
  const std::function<reg::Vecs(const Eigen::Isometry3d &)> & eval)
{
  const int n = static_cast<int>(scan.rows());
  VH_CHECK(static_cast<int>(J.size()) >= n && static_cast<int>(res.size()) >= n, "count", "%zu and %zu of %d", J.size(), res.size(), n);
  std::vector<Eigen::Vector3d> pts;
  std::vector<bool> usable;
  for (int i = 0; i < n; i++) {
    Eigen::VectorXd query = scan.row(i).transpose();
    pts.push_back(query.head(3));
    query.head(3) = pose.linear() * query.head(3).eval() + pose.translation();
    const reg::Neighbours nb = reg::nearest(map, query, k);
    const reg::Line l = reg::fit_line(reg::rows_of(map, nb.rows));
    const double size = 1. + query.norm() + l.mean.norm();
    const bool sure = nb.gap > 1e-9 * size && l.ratio < 0.5;
    usable.push_back(sure && nb.gap > 1e-3);
    if (!sure) {vh::count("edges_unsure"); continue;}
    const Eigen::Vector3d d = query.head(3) - l.mean;
    const double dist = d.cross(l.direction).norm();
    const double tol = 3e-7 * (d.norm() + 1e-6 * size);
    VH_CHECK(res[i].size() == 3, "edge-size", "%ld", res[i].size());
    VH_CHECK(std::abs(res[i].dot(l.direction)) <= tol, "edge-direction", "%d: %s is not orthogonal to the line %s", i, shown(res[i].transpose()).c_str(), shown(l.direction.transpose()).c_str());
    VH_CHECK(std::abs(res[i].norm() - 2 * dist) <= 2 * tol, "edge-length", "%d: |%s| = %.12g, twice the distance is %.12g", i, shown(res[i].transpose()).c_str(), res[i].norm(), 2 * dist);
    VH_CHECK(std::abs(res[i].dot(d)) <= tol * (1 + d.norm()), "edge-normal", "%d: %s lies in the plane of line and point", i, shown(res[i].transpose()).c_str());
    vh::count("edge_residuals");
    if (static_cast<int>(map.rows()) < k) {vh::count("edges_small_map");}
  }
  const reg::Mats Jn(J.begin(), J.begin() + n);
  const reg::Vecs rn(res.begin(), res.begin() + n);
  check_jacobian("edge", pose, Jn, rn, pts, usable, eval);
}

static void residuals_edge(vh::Case & c, bool with_curvature)
{
  vh::Rng & r = c.rng;
  const bool small = r.chance(0.1);
  const auto mp = edge_map_points(r, r.lg(0.5, 20), small);
  const int k = static_cast<int>(r.of({3, 5, 8, 15}));
  const Eigen::Isometry3d pose = random_pose(r, 5);
  const int n = static_cast<int>(r.i(0, 8));
  std::string note = vh::fmt("edge%s k %d pose %s map of %zu", with_curvature ? "4" : "", k, shown(pose).c_str(), mp.size());
  auto near_point = [&]() -> Eigen::Vector3d {
      auto m = mp;
      return pose.inverse() * (r.pick(m) + r.lg(1e-3, 3) * Eigen::Vector3d(r.n(), r.n(), r.n()));
    };
  if (!with_curvature) {
    const CloudXYZ::Ptr map = cloud_of(mp);
    std::vector<Eigen::Vector3d> sp;
    for (int i = 0; i < n; i++) {sp.push_back(near_point());}
    const CloudXYZ::Ptr scan = cloud_of(sp);
    vh::note(note + " scan " + shown(matrix_of(*scan)) + " map " + shown(matrix_of(*map)));
    const Edge<PointXYZToVector> edge(map, k);
    const auto got = edge.Make(scan, pose);
    VH_CHECK(std::get<0>(got).size() == scan->size() && std::get<1>(got).size() == scan->size(), "count", "%zu of %zu", std::get<1>(got).size(), scan->size());
    check_edges(matrix_of(*map), matrix_of(*scan), k, pose, std::get<0>(got), std::get<1>(got), [&](const Eigen::Isometry3d & p) {return std::get<1>(edge.Make(scan, p));});
  } else {
    CloudCR::Ptr map(new CloudCR()), scan(new CloudCR());
    Eigen::MatrixXd M(mp.size(), 4), S(n, 4);
    for (size_t i = 0; i < mp.size(); i++) {
      const Eigen::Vector3f p = f3(mp[i]);
      map->push_back(PointXYZCR(p(0), p(1), p(2), static_cast<float>(r.i(0, 3)), static_cast<uint16_t>(r.i(0, 3))));
      M.row(i) << (*map)[i].x, (*map)[i].y, (*map)[i].z, (*map)[i].curvature;
    }
    for (int i = 0; i < n; i++) {
      const Eigen::Vector3f p = f3(near_point());
      scan->push_back(PointXYZCR(p(0), p(1), p(2), static_cast<float>(r.u(0, 3)), static_cast<uint16_t>(r.i(0, 3))));
      S.row(i) << (*scan)[i].x, (*scan)[i].y, (*scan)[i].z, (*scan)[i].curvature;
    }
    vh::note(note + " scan " + shown(S) + " map " + shown(M));
    const Edge<PointXYZCRToVector> edge(map, k);
    const auto got = edge.Make(scan, pose);
    VH_CHECK(std::get<0>(got).size() == scan->size() && std::get<1>(got).size() == scan->size(), "count", "%zu of %zu", std::get<1>(got).size(), scan->size());
    check_edges(M, S, k, pose, std::get<0>(got), std::get<1>(got), [&](const Eigen::Isometry3d & p) {return std::get<1>(edge.Make(scan, p));});
  }
  c.nontrivial = n > 0;
  c.mark(static_cast<uint64_t>(with_curvature));
}

struct VoxelMean {Eigen::Vector3d mean; double spread;};
// one centroid per unit voxel, in the order z, y, x
static std::vector<VoxelMean> thinned(const CloudXYZ & scan)
{
  std::map<std::array<long, 3>, std::pair<Eigen::Vector3d, int>> v;
  for (const auto & p : scan) {
    auto & e = v[{static_cast<long>(std::floor(p.z)), static_cast<long>(std::floor(p.y)), static_cast<long>(std::floor(p.x))}];
    if (e.second == 0) {e.first.setZero();}
    e.first += Eigen::Vector3d(p.x, p.y, p.z);
    e.second++;
  }
  std::vector<VoxelMean> r;
  for (const auto & e : v) {r.push_back({e.second.first / e.second.second, static_cast<double>(e.second.second)});}
  return r;
}

static std::vector<Eigen::Vector3d> surface_map_points(vh::Rng & r, double reach, bool small)
{
  std::vector<Eigen::Vector3d> m;
  const int planes = small ? 1 : static_cast<int>(r.i(1, 4));
  const double noise = r.of({0., 1e-4, 0.01, 0.05});
  for (int l = 0; l < planes; l++) {
    const Eigen::Vector3d nrm = reg::random_unit(r);
    const Eigen::Vector3d a = nrm.cross(std::abs(nrm(0)) < 0.7 ? Eigen::Vector3d::UnitX() : Eigen::Vector3d::UnitY()).normalized(), b = nrm.cross(a);
    const Eigen::Vector3d c = nrm * r.sign() * r.u(0.5, reach + 0.6) + a * r.n() + b * r.n();
    const int n = small ? static_cast<int>(r.i(3, 8)) : static_cast<int>(r.i(20, 60));
    for (int i = 0; i < n; i++) {m.push_back(c + r.u(-2, 2) * a + r.u(-2, 2) * b + noise * r.n() * nrm);}
  }
  r.shuffle(m);
  return m;
}

static void check_surfaces(
  const Eigen::MatrixXd & map, const CloudXYZ & scan, int k, const Eigen::Isometry3d & pose, const reg::Mats & J, const reg::Vecs & res,
  const std::function<reg::Vecs(const Eigen::Isometry3d &)> & eval)
{
  const std::vector<VoxelMean> pts = thinned(scan);
  VH_CHECK(J.size() == pts.size() && res.size() == pts.size(), "surface-count", "%zu terms of %zu occupied voxels (%zu points)", res.size(), pts.size(), scan.size());
  std::vector<Eigen::Vector3d> ps;
  std::vector<bool> usable;
  for (size_t i = 0; i < pts.size(); i++) {
    ps.push_back(pts[i].mean);
    const Eigen::Vector3d x = pose.linear() * pts[i].mean + pose.translation();
    const double rounding = 1e-6 * (1. + pts[i].mean.norm()) * std::sqrt(pts[i].spread);
    const reg::Neighbours nb = reg::nearest(map, x, k);
    const reg::Plane p = reg::fit_plane(reg::rows_of(map, nb.rows));
    const bool sure = nb.gap > 10 * rounding && p.cond < 1e4;
    usable.push_back(sure && nb.gap > 1e-3);
    if (!sure) {vh::count("surfaces_unsure"); continue;}
    const double want = (p.w.dot(x) + 1.) / p.w.norm();
    const double tol = 2 * rounding + 1e-13 * p.cond * p.cond * (1. + x.norm());
    VH_CHECK(res[i].size() == 1 && std::abs(res[i](0) - want) <= tol, "surface-residual", "%zu: %.12g, expected %.12g (plane %s point %s)", i, res[i](0), want,
      shown(p.w.transpose()).c_str(), shown(x.transpose()).c_str());
    vh::count("surface_residuals");
    if (pts[i].spread > 1) {vh::count("voxels_merged");}
  }
  // the points are known up to float rounding only
  const double h = 1e-6;
  const Eigen::Quaterniond q(pose.linear());
  for (int kk = 0; kk < 6; kk++) {
    Eigen::Vector3d a = Eigen::Vector3d::Zero(), t = Eigen::Vector3d::Zero();
    (kk < 3 ? a : t)(kk % 3) = h;
    const reg::Vecs rp = eval(moved(pose, a, t)), rm = eval(moved(pose, -a, -t));
    for (size_t i = 0; i < J.size(); i++) {
      if (!usable[i]) {continue;}
      VH_CHECK(J[i].rows() == 1 && J[i].cols() == 7, "jacobian-size", "surface %zu: %ld x %ld", i, J[i].rows(), J[i].cols());
      const double num = (rp[i](0) - rm[i](0)) / (2 * h);
      const double size = 1. + ps[i].norm() + pose.translation().norm();
      const Eigen::MatrixXd g = J[i] * reg::tangent7(q);
      const double d = std::min(std::abs(g(0, kk) - num), kk < 3 ? std::abs(g(0, kk) + num) : INFINITY);
      VH_CHECK(d <= 1e-6 * size * size, "jacobian", "surface %zu: column %d of J M is %.12g, numerically %.12g", i, kk, g(0, kk), num);
    }
  }
  for (size_t i = 0; i < J.size(); i++) {
    if (!usable[i]) {continue;}
    const Eigen::MatrixXd want = J[i].rightCols(3) * reg::rotation_derivative(q, ps[i]);
    const double size = 1. + ps[i].norm();
    VH_CHECK(std::min((want - J[i].leftCols(4)).norm(), (want + J[i].leftCols(4)).norm()) <= 1e-5 * size * std::sqrt(pts[i].spread), "jacobian",
      "surface %zu: quaternion columns %s, expected %s", i, shown(J[i].leftCols(4)).c_str(), shown(want).c_str());
    vh::count("jacobians");
  }
}

static CloudXYZ::Ptr surface_scan(vh::Rng & r, const std::vector<Eigen::Vector3d> & mp, const Eigen::Isometry3d & pose, int n)
{
  std::vector<Eigen::Vector3d> sp;
  auto m = mp;
  for (int i = 0; i < n; i++) {
    const Eigen::Vector3d p = pose.inverse() * (r.pick(m) + r.lg(1e-3, 2) * Eigen::Vector3d(r.n(), r.n(), r.n()));
    const int copies = static_cast<int>(r.i(1, 4));
    for (int k = 0; k < copies; k++) {sp.push_back(k == 0 ? p : Eigen::Vector3d(p + 0.3 * Eigen::Vector3d(r.n(), r.n(), r.n())));}
  }
  return cloud_of(sp);
}

static void residuals_surface(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const auto mp = surface_map_points(r, r.lg(1, 20), r.chance(0.1));
  const int k = static_cast<int>(r.of({4, 5, 8, 15}));
  const Eigen::Isometry3d pose = random_pose(r, 5);
  const CloudXYZ::Ptr map = cloud_of(mp), scan = surface_scan(r, mp, pose, static_cast<int>(r.i(0, 10)));
  vh::note(vh::fmt("surface k %d pose %s scan %s map %s", k, shown(pose).c_str(), shown(matrix_of(*scan)).c_str(), shown(matrix_of(*map)).c_str()));
  const Surface<PointXYZToVector> surface(map, k);
  const auto got = surface.Make(scan, pose);
  check_surfaces(matrix_of(*map), *scan, k, pose, std::get<0>(got), std::get<1>(got), [&](const Eigen::Isometry3d & p) {return std::get<1>(surface.Make(scan, p));});
  c.nontrivial = scan->size() > 0;
}

static void residuals_combined(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const auto em = edge_map_points(r, r.lg(1, 10), r.chance(0.1)), sm = surface_map_points(r, r.lg(1, 10), r.chance(0.1));
  const int k = static_cast<int>(r.of({4, 5, 8, 15}));
  const Eigen::Isometry3d pose = random_pose(r, 3);
  std::vector<Eigen::Vector3d> ep;
  auto m = em;
  const bool many = r.chance(0.02);
  const int n = static_cast<int>(many ? r.i(60, 300) : r.i(0, 6)), wanted = static_cast<int>(many ? r.i(0, 200) : r.i(0, 6));
  for (int i = 0; i < n; i++) {ep.push_back(pose.inverse() * (r.pick(m) + r.lg(1e-3, 1) * Eigen::Vector3d(r.n(), r.n(), r.n())));}
  const CloudXYZ::Ptr emap = cloud_of(em), smap = cloud_of(sm), edge = cloud_of(ep), surface = surface_scan(r, sm, pose, wanted);
  vh::note(vh::fmt("combined k %d pose %s edge scan %s surface scan %s", k, shown(pose).c_str(), shown(matrix_of(*edge)).c_str(), shown(matrix_of(*surface)).c_str()));
  const LOAMOptimizationProblem<PointXYZToVector> problem(emap, smap, k);
  const EdgeSurfaceScan scan = std::make_tuple(edge, surface);
  const auto got = problem.Make(scan, pose);
  const reg::Mats & J = std::get<0>(got);
  const reg::Vecs & res = std::get<1>(got);
  const size_t ns = thinned(*surface).size();
  VH_CHECK(J.size() == n + ns && res.size() == n + ns, "count", "%zu and %zu terms of %d edge points and %zu surface voxels", J.size(), res.size(), n, ns);
  auto part = [&](bool first, const Eigen::Isometry3d & p) {
      const auto g = problem.Make(scan, p);
      const reg::Vecs & v = std::get<1>(g);
      return first ? reg::Vecs(v.begin(), v.begin() + n) : reg::Vecs(v.begin() + n, v.end());
    };
  check_edges(matrix_of(*emap), matrix_of(*edge), k, pose, reg::Mats(J.begin(), J.begin() + n), reg::Vecs(res.begin(), res.begin() + n),
    [&](const Eigen::Isometry3d & p) {return part(true, p);});
  check_surfaces(matrix_of(*smap), *surface, k, pose, reg::Mats(J.begin() + n, J.end()), reg::Vecs(res.begin() + n, res.end()),
    [&](const Eigen::Isometry3d & p) {return part(false, p);});
  if (n && ns) {vh::count("combined");}
  if (many) {vh::count("combined_large");}
  c.nontrivial = n + ns > 0;
}

static void residuals_rows(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const Eigen::Isometry3d pose = random_pose(r, r.lg(0.1, 30));
  const Eigen::Quaterniond q(pose.linear());
  const double s = r.lg(0.1, 30);
  auto v3 = [&]() {return Eigen::Vector3d(s * r.n(), s * r.n(), s * r.n());};
  const Eigen::Vector3d p0 = v3(), p1 = v3(), p2 = v3();
  vh::note(vh::fmt("rows pose %s p0 %s p1 %s p2 %s", shown(pose).c_str(), shown(p0.transpose()).c_str(), shown(p1.transpose()).c_str(), shown(p2.transpose()).c_str()));
  const Eigen::Vector3d p = pose.linear() * p0 + pose.translation();
  const Eigen::Vector3d res = MakeEdgeResidual(pose, p0, p1, p2);
  const double size = 1 + s * 10 + pose.translation().norm();
  // twice the area of the triangle, orthogonal to the line
  const Eigen::Vector3d u = p2 - p1;
  VH_CHECK(std::abs(res.norm() - (p - p1).cross(u).norm()) <= 1e-12 * size * size, "edge-row-length", "%.12g, expected %.12g", res.norm(), (p - p1).cross(u).norm());
  VH_CHECK(std::abs(res.dot(u)) <= 1e-12 * size * size * size, "edge-row-direction", "%.12g", res.dot(u));
  const reg::Mats J{MakeEdgeJacobianRow(q, p0, p1, p2)};
  // wants the tolerance of the product of two lengths
  const double h = 1e-5;
  for (int k = 0; k < 6; k++) {
    Eigen::Vector3d a = Eigen::Vector3d::Zero(), t = Eigen::Vector3d::Zero();
    (k < 3 ? a : t)(k % 3) = h;
    const Eigen::Vector3d num = (MakeEdgeResidual(moved(pose, a, t), p0, p1, p2) - MakeEdgeResidual(moved(pose, -a, -t), p0, p1, p2)) / (2 * h);
    const Eigen::Vector3d got = (J[0] * reg::tangent7(q)).col(k);
    VH_CHECK((num - got).norm() <= 1e-7 * size * size, "edge-row-jacobian", "column %d: %s, numerically %s", k, shown(got.transpose()).c_str(), shown(num.transpose()).c_str());
  }
  const Eigen::Vector3d tc = TripletCross(p0, p1, p2);
  const Eigen::Vector3d want = (p2 - p1).cross((p0 - p1).cross(p0 - p2));
  VH_CHECK((tc - want).norm() <= 1e-12 * size * size * size, "triplet", "%s, expected %s", shown(tc.transpose()).c_str(), shown(want.transpose()).c_str());
  // rows of coeff . (R p + t)
  const int n = static_cast<int>(r.i(0, 6));
  std::vector<Eigen::Vector3d> pts(n), co(n);
  for (int i = 0; i < n; i++) {pts[i] = v3(); co[i] = v3();}
  const Eigen::MatrixXd R = MakeJacobian(pts, co, q);
  VH_CHECK(R.rows() == n && R.cols() == 7, "rows-size", "%ld x %ld", R.rows(), R.cols());
  for (int i = 0; i < n; i++) {
    Eigen::Matrix<double, 1, 7> w;
    w << co[i].transpose() * reg::rotation_derivative(q, pts[i]), co[i].transpose();
    VH_CHECK((R.row(i) - w).norm() <= 1e-12 * size * size, "rows", "%d: %s, expected %s", i, shown(R.row(i)).c_str(), shown(w).c_str());
  }
  // mean, covariance and principal components
  const int m = static_cast<int>(r.i(1, 20));
  Eigen::MatrixXd X(m, 3);
  const Eigen::Vector3d off = v3() * r.of({0., 1., 100.}), u1 = reg::random_unit(r);
  for (int i = 0; i < m; i++) {X.row(i) = (off + u1 * s * r.n() + r.of({0., 0.1, 1.}) * v3()).transpose();}
  const auto mc = CalcMeanAndCovariance(X);
  const Eigen::VectorXd mean = std::get<0>(mc);
  const Eigen::MatrixXd C = std::get<1>(mc);
  reg::VecL ml = X.cast<reg::LD>().colwise().sum().transpose() / reg::LD(m);
  const reg::MatL D = X.cast<reg::LD>().rowwise() - ml.transpose();
  const reg::MatL CL = D.transpose() * D / reg::LD(m);
  const double big = X.norm();
  VH_CHECK((mean - ml.cast<double>()).norm() <= 1e-14 * m * big && (Center(X) - ml.cast<double>()).norm() <= 1e-14 * m * big, "mean", "%s", shown(mean.transpose()).c_str());
  VH_CHECK((C - CL.cast<double>()).norm() <= 1e-12 * big * std::max(1., static_cast<double>(D.norm())), "covariance", "%s, expected %s", shown(C).c_str(), shown(CL.cast<double>()).c_str());
  const auto pc = PrincipalComponents(C);
  const Eigen::Vector3d ev = std::get<0>(pc);
  const Eigen::Matrix3d V = std::get<1>(pc);
  const double cs = C.norm();
  VH_CHECK(ev(0) <= ev(1) && ev(1) <= ev(2), "eigenvalue-order", "%s", shown(ev.transpose()).c_str());
  for (int k = 0; k < 3; k++) {
    VH_CHECK((C * V.col(k) - ev(k) * V.col(k)).norm() <= 1e-5 * cs + 1e-300 && std::abs(V.col(k).norm() - 1) <= 1e-6, "eigenvector", "%d of %s", k, shown(C).c_str());
  }
  const Eigen::Vector3d e3(r.i(0, 9), r.i(0, 3), r.i(0, 9));
  double srt[3] = {e3(0), e3(1), e3(2)};
  std::sort(srt, srt + 3);
  VH_CHECK(PrincipalIsReliable(e3) == (srt[2] > 3. * srt[1]), "reliable", "%s", shown(e3.transpose()).c_str());
  vh::count("rows");
  c.nontrivial = true;
}

static void run_c17(vh::Case & c)
{
  const int kind = static_cast<int>(c.rng.i(0, 9));
  c.mark(static_cast<uint64_t>(kind));
  c.mark(c.rng.u64());
  if (kind <= 1) {residuals_alignment(c);
  } else if (kind <= 3) {residuals_edge(c, false);
  } else if (kind == 4) {residuals_edge(c, true);
  } else if (kind <= 6) {residuals_surface(c);
  } else if (kind <= 8) {residuals_combined(c);
  } else {residuals_rows(c);}
  c.desc = vh::note_().substr(0, 600);
}
#endif

#if !defined(ONLY) || ONLY == 18
// ------------------------------------------------------------------ C18
struct System {reg::Mats J; reg::Vecs r; Eigen::Quaterniond q;};
static System random_system(vh::Rng & r)
{
  System s;
  s.q = r.chance(0.1) ? Eigen::Quaterniond::Identity() : r.chance(0.1) ? reg::rotation_by(r.lg(1e-9, 1e-2) * reg::random_unit(r)) : reg::random_rotation(r);
  const bool large = r.chance(0.01);
  const int n = static_cast<int>(large ? r.lg(100, r.chance(0.1) ? 80000 : 5000) : r.i(0, r.chance(0.2) ? 60 : 14));
  if (large) {vh::count("large_systems");}
  const double size = r.lg(1e-2, 1e2), rsize = r.lg(1e-4, 1e3);
  const int rank = static_cast<int>(r.chance(0.3) ? r.i(1, 6) : 7);   // less than 7: some direction is not observed
  Eigen::MatrixXd basis(7, rank);
  for (int i = 0; i < basis.size(); i++) {basis(i / rank, i % rank) = r.n();}
  for (int i = 0; i < n; i++) {
    const int d = static_cast<int>(r.of({1, 3, 3, 2}));
    Eigen::MatrixXd J(d, 7);
    if (rank < 7) {
      Eigen::MatrixXd co(rank, d);
      for (int k = 0; k < co.size(); k++) {co(k / d, k % d) = r.n();}
      J = size * (basis * co).transpose();
    } else {
      for (int a = 0; a < d; a++) {for (int b = 0; b < 7; b++) {J(a, b) = size * r.n();}}
    }
    Eigen::VectorXd v(d);
    for (int k = 0; k < d; k++) {v(k) = r.chance(0.05) ? 0. : rsize * r.n() * (r.chance(0.1) ? 100 : 1);}
    s.J.push_back(J);
    s.r.push_back(v);
  }
  return s;
}

static void run_c18(vh::Case & c)
{
  vh::Rng & r = c.rng;
  c.nontrivial = true;
  // Huber cost, derivative and weights
  {
    const double k = r.chance(0.3) ? 1.345 : r.lg(1e-2, 1e2);
    const double e = r.chance(0.3) ? k * k * r.of({1., 1. - 1e-9, 1. + 1e-9}) : r.lg(1e-6, 1e8);
    c.mark(e);
    vh::note(vh::fmt("Huber e %.17g k %.17g", e, k));
    const double w = HuberDerivative(e, k);
    VH_CHECK(vh::close(w, reg::weight_of(e, k), 1e-12, 0) && w > 0 && w <= 1, "weight", "%.17g, expected %.17g", w, reg::weight_of(e, k));
    VH_CHECK(vh::close(Huber(e, k), e < k * k ? e : 2 * k * std::sqrt(e) - k * k, 1e-12, 0), "cost", "%.17g", Huber(e, k));
    const double h = 1e-6 * e, num = (Huber(e + h, k) - Huber(e - h, k)) / (2 * h);
    VH_CHECK(std::abs(num - w) <= 1e-5, "weight-derivative", "%.12g, derivative of the cost %.12g", w, num);
    VH_CHECK(std::abs(HuberDerivative(k * k * (1 - 1e-12), k) - HuberDerivative(k * k * (1 + 1e-12), k)) <= 1e-10, "weight-continuous", "k %g", k);
    VH_CHECK(HuberDerivative(e * 1.5, k) <= w, "weight-decreasing", "");
    VH_CHECK(HuberDerivative(0., k) == 1., "weight-zero", "");
    VH_CHECK(HuberDerivative(e) == HuberDerivative(e, 1.345) && Huber(e) == Huber(e, 1.345), "default-cut", "");
    vh::count("huber");
  }
  const System s = random_system(r);
  std::string note = vh::fmt("q %.9g %.9g %.9g %.9g", s.q.w(), s.q.x(), s.q.y(), s.q.z());
  for (size_t i = 0; i < s.J.size(); i++) {
    if (i < 100) {note += " | J " + shown(s.J[i]) + " r " + shown(s.r[i].transpose());}
    c.mark(s.r[i](0));
  }
  vh::note(note);
  const int n = static_cast<int>(s.r.size());
  const std::vector<double> want_e = reg::errors_of(s.r);
  const Eigen::VectorXd e = ComputeErrors(s.r);
  VH_CHECK(e.size() == n, "errors-size", "%ld of %d", e.size(), n);
  for (int i = 0; i < n; i++) {VH_CHECK(vh::close(e(i), want_e[i], 1e-14, 0), "errors", "%d: %.17g, expected %.17g", i, e(i), want_e[i]);}
  std::vector<double> want_w(n, 1.);
  Eigen::VectorXd w = Eigen::VectorXd::Ones(n);
  if (n > 0) {
    Eigen::VectorXd es = e;
    if (r.chance(0.3)) {   // equal errors: no deviation at all
      for (int i = 0; i < n; i++) {if (r.chance(0.8)) {es(i) = e(0);}}
    }
    const std::vector<double> ev(es.data(), es.data() + n);
    const double want_scale = reg::scale_of(ev);
    const auto ns = NormalizeErrorScale(es);
    const double scale = std::get<1>(ns);
    const double big = *std::max_element(ev.begin(), ev.end());
    VH_CHECK(vh::close(scale, want_scale, 1e-12, 1e-14 * big), "scale", "%.17g, expected %.17g", scale, want_scale);
    VH_CHECK(vh::close(Scale(es), want_scale, 1e-12, 1e-14 * big) && vh::close(MedianAbsoluteDeviation(es) * 1.482602218505602, want_scale, 1e-12, 1e-14 * big), "scale-functions", "%.17g", Scale(es));
    VH_CHECK(std::get<0>(ns).size() == n, "normalized-size", "%ld", std::get<0>(ns).size());
    if (want_scale > 1e-12 * big) {
      for (int i = 0; i < n; i++) {
        VH_CHECK(vh::close(std::get<0>(ns)(i), ev[i] / (want_scale + 1e-16), 1e-9, 0), "normalized", "%d: %.17g, expected %.17g", i, std::get<0>(ns)(i), ev[i] / (want_scale + 1e-16));
      }
      vh::count("scales");
    } else {
      VH_CHECK(std::get<0>(ns).allFinite(), "normalized-finite", "a scale of zero");
      vh::count("scales_zero");
    }
    const Eigen::VectorXd cw = ComputeWeights(std::get<0>(ns));
    VH_CHECK(cw.size() == n, "weights-size", "%ld", cw.size());
    for (int i = 0; i < n; i++) {
      VH_CHECK(vh::close(cw(i), reg::weight_of(std::get<0>(ns)(i)), 1e-12, 0) && cw(i) > 0 && cw(i) <= 1, "weights", "%d: %.17g of %.17g", i, cw(i), std::get<0>(ns)(i));
    }
    for (int i = 0; i < n; i++) {want_w[i] = w(i) = r.chance(0.3) ? r.lg(1e-3, 1) : cw(i);}
  }
  // the tangent basis
  const Eigen::Matrix<double, 7, 6> M = MakeM(s.q);
  VH_CHECK((M - reg::tangent7(s.q)).norm() <= 1e-14, "tangent", "%s, expected %s", shown(M).c_str(), shown(reg::tangent7(s.q)).c_str());
  // the step
  const reg::Step want = reg::gauss_newton(reg::tangent7(s.q), want_w, s.J, s.r);
  const Vector6d dx = WeightedUpdate(M, w, s.J, s.r);
  const double lim = 0.1;
  double jbig = 0;
  for (const auto & J : s.J) {jbig += J.squaredNorm();}
  const double noise = 1e-12 * jbig + 1e-12;
  if (want.smallest < lim - noise) {
    VH_CHECK(dx == Vector6d::Zero(), "degenerate-step", "%s although the least eigenvalue is %.12g", shown(dx.transpose()).c_str(), want.smallest);
    vh::count("degenerate");
    const auto u = CalcUpdate(s.q, w, s.J, s.r);
    VH_CHECK(std::get<0>(u).coeffs() == Eigen::Quaterniond::Identity().coeffs() && std::get<1>(u) == Eigen::Vector3d::Zero(), "degenerate-update", "");
  } else if (want.smallest > lim + noise && want.cond < 1e9) {
    const double tol = 1e-14 * want.cond * (1 + want.dx.norm()) + 1e-11 * want.dx.norm();
    VH_CHECK((dx - want.dx).norm() <= tol, "step", "%s, expected %s (condition %.3g)", shown(dx.transpose()).c_str(), shown(want.dx.transpose()).c_str(), want.cond);
    vh::count("steps");
    const auto u = CalcUpdate(s.q, w, s.J, s.r);
    const Eigen::Quaterniond wq = want.dx.head(3).norm() < 1e-8 ? Eigen::Quaterniond::Identity() : reg::rotation_by(want.dx.head(3));
    VH_CHECK(std::min((std::get<0>(u).coeffs() - wq.coeffs()).norm(), (std::get<0>(u).coeffs() + wq.coeffs()).norm()) <= tol + 2e-8 && (std::get<1>(u) - want.dx.tail(3)).norm() <= tol,
      "update", "q %s t %s, expected step %s", shown(std::get<0>(u).coeffs().transpose()).c_str(), shown(std::get<1>(u).transpose()).c_str(), shown(want.dx.transpose()).c_str());
    // another order of the measurements
    std::vector<int> o(n);
    std::iota(o.begin(), o.end(), 0);
    r.shuffle(o);
    reg::Mats J2;
    reg::Vecs r2;
    Eigen::VectorXd w2(n);
    for (int i = 0; i < n; i++) {J2.push_back(s.J[o[i]]); r2.push_back(s.r[o[i]]); w2(i) = w(o[i]);}
    VH_CHECK((WeightedUpdate(M, w2, J2, r2) - dx).norm() <= 2 * tol, "order", "the step depends on the order of the measurements");
    // zero residuals; scaled weights
    reg::Vecs r0 = s.r;
    for (auto & x : r0) {x.setZero();}
    VH_CHECK(WeightedUpdate(M, w, s.J, r0).norm() == 0., "zero-residual", "a step although all residuals are zero");
    const Eigen::VectorXd w3 = 0.25 * w;
    VH_CHECK((WeightedUpdate(M, w3, s.J, s.r) - dx).norm() <= 2 * tol, "common-factor", "a common factor of the weights changes the step");
    vh::count("orders");
  } else {
    vh::count("steps_unsure");
  }
  // IsDegenerate with its threshold, on matrices with known eigenvalues
  {
    const int d = static_cast<int>(r.i(1, 7));
    Eigen::MatrixXd G(d, d);
    for (int i = 0; i < d * d; i++) {G(i / d, i % d) = r.n();}
    const Eigen::HouseholderQR<Eigen::MatrixXd> qr(G);
    const Eigen::MatrixXd Q = qr.householderQ();
    const double th = r.chance(0.5) ? 0.1 : r.lg(1e-3, 1e3);
    Eigen::VectorXd l(d);
    double least = INFINITY;
    for (int i = 0; i < d; i++) {l(i) = r.sign() * th * r.of({0., 0.5, 0.99, 1.01, 2., 50.}); least = std::min(least, std::abs(l(i)));}
    const Eigen::MatrixXd C = Q * l.asDiagonal() * Q.transpose();
    VH_CHECK(IsDegenerate(C, th) == (least < th), "is-degenerate", "eigenvalues %s threshold %g", shown(l.transpose()).c_str(), th);
    if (th == 0.1) {VH_CHECK(IsDegenerate(C) == (least < th), "is-degenerate-default", "eigenvalues %s", shown(l.transpose()).c_str());}
  }
  // convergence
  {
    const Eigen::Vector3d a = reg::random_unit(r) * 2e-3 * r.of({0., 0.4, 0.99, 1.01, 3.}), t = reg::random_unit(r) * 1e-3 * r.of({0., 0.4, 0.99, 1.01, 3.});
    const bool want_c = std::sin(a.norm() / 2) < 1e-3 && t.norm() < 1e-3;
    VH_CHECK(CheckConvergence(reg::rotation_by(a), t) == want_c, "convergence", "rotation %g translation %g", a.norm(), t.norm());
  }
  c.desc = vh::fmt("%d measurements, least eigenvalue %.3g, condition %.3g", n, want.smallest, want.cond);
}
#endif

#if !defined(ONLY) || ONLY == 19
// ------------------------------------------------------------------ C19
// Records every evaluation; the inner problem is any function of the evaluation number and the pose.
struct Recorder
{
  struct Eval {Eigen::Isometry3d pose; reg::Mats J; reg::Vecs r;};
  std::shared_ptr<std::vector<Eval>> log = std::make_shared<std::vector<Eval>>();
  std::function<std::tuple<reg::Mats, reg::Vecs>(int, const Eigen::Isometry3d &)> f;
  std::tuple<reg::Mats, reg::Vecs> Make(const int & tag, const Eigen::Isometry3d & pose) const
  {
    if (tag != 77) {vh::fail("argument", "the problem got another argument than the optimizer");}
    auto g = f(static_cast<int>(log->size()), pose);
    log->push_back({pose, std::get<0>(g), std::get<1>(g)});
    return g;
  }
};

static void run_c19(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const int max_iter = static_cast<int>(r.chance(0.2) ? r.i(0, 3) : r.i(1, 40));
  const int kind = static_cast<int>(r.i(0, 5));
  const Eigen::Isometry3d start = r.chance(0.15) ? Eigen::Isometry3d::Identity() : random_pose(r, r.lg(0.01, 100));
  Recorder rec;
  std::string desc = vh::fmt("kind %d max_iter %d start %s", kind, max_iter, shown(start).c_str());
  const int n = static_cast<int>(r.chance(0.05) ? r.i(20, 400) : r.i(1, 20));
  if (kind <= 1) {            // alignment, exact or with noise and outliers
    Eigen::MatrixXd X(n, 3), Y(n, 3);
    const double least = r.chance(0.3) ? 1e-9 : 1e-4;
    const Eigen::Isometry3d truth = r.chance(0.03) ? start : moved(start, r.lg(least, 2) * reg::random_unit(r), r.lg(least, 20) * reg::random_unit(r));
    if (start.isApprox(truth, 1e-3)) {vh::count("starts_at_truth");}
    const double noise = kind == 0 ? 0. : r.lg(1e-4, 1);
    const double size = r.lg(0.1, 30);
    for (int i = 0; i < n; i++) {
      const Eigen::Vector3d x(size * r.n(), size * r.n(), size * r.n());
      X.row(i) = x.transpose();
      Y.row(i) = (truth * x + noise * Eigen::Vector3d(r.n(), r.n(), r.n()) * (r.chance(0.1) ? 100 : 1)).transpose();
    }
    rec.f = [X, Y](int, const Eigen::Isometry3d & p) {return AlignmentProblem().Make(std::make_tuple(X, Y), p);};
  } else if (kind == 2) {     // edges
    const auto mp = edge_map_points(r, 3, false);
    const CloudXYZ::Ptr map = cloud_of(mp);
    std::vector<Eigen::Vector3d> sp;
    const Eigen::Isometry3d truth = moved(start, r.lg(1e-3, 0.5) * reg::random_unit(r), r.lg(1e-3, 1) * reg::random_unit(r));
    for (const auto & p : mp) {if (r.chance(0.5)) {sp.push_back(truth.inverse() * p);}}
    const CloudXYZ::Ptr scan = cloud_of(sp);
    auto edge = std::make_shared<Edge<PointXYZToVector>>(map, 5);
    rec.f = [edge, scan](int, const Eigen::Isometry3d & p) {return edge->Make(scan, p);};
  } else if (kind == 3) {     // scripted: errors that rise, fall, stay, vanish; nothing at some evaluation
    const uint64_t s = r.u64();
    const double up = r.of({0., 0.05, 0.3}), none = r.of({0., 0.02, 0.2}), shrink = r.of({0., 0.1, 0.9, 1.});
    const double init = r.lg(1e-6, 1e6);
    rec.f = [=](int k, const Eigen::Isometry3d &) {
        vh::Rng q(s + static_cast<uint64_t>(k) * 1000003);
        reg::Mats J;
        reg::Vecs v;
        if (q.chance(none)) {return std::make_tuple(J, v);}
        const double size = init * std::pow(shrink, k) * (q.chance(up) ? q.lg(1, 100) : 1.);
        vh::Rng q2(s);
        for (int i = 0; i < n; i++) {
          Eigen::MatrixXd Ji(1, 7);
          for (int b = 0; b < 7; b++) {Ji(0, b) = q2.n() * 5;}
          Eigen::VectorXd vi(1);
          vi(0) = size * q2.n();
          J.push_back(Ji);
          v.push_back(vi);
        }
        return std::make_tuple(J, v);
      };
  } else if (kind == 4) {     // rank-deficient or badly weighted systems
    const uint64_t s = r.u64();
    const int rank = static_cast<int>(r.i(1, 7));
    const double out = r.lg(1, 1e8);
    rec.f = [=](int, const Eigen::Isometry3d & p) {
        vh::Rng q(s);
        Eigen::MatrixXd B(7, rank);
        for (int i = 0; i < B.size(); i++) {B(i / rank, i % rank) = q.n();}
        reg::Mats J;
        reg::Vecs v;
        for (int i = 0; i < n; i++) {
          Eigen::VectorXd co(rank);
          for (int k = 0; k < rank; k++) {co(k) = 3 * q.n();}
          J.push_back((B * co).transpose());
          Eigen::VectorXd vi(1);
          vi(0) = i % 2 ? 0. : out * q.n() * (1 + 0.1 * p.translation().norm());
          v.push_back(vi);
        }
        return std::make_tuple(J, v);
      };
  } else {                    // no convex function at all
    const Eigen::Vector3d a = reg::random_unit(r), b = reg::random_unit(r);
    const double f1 = r.lg(0.1, 20);
    rec.f = [=](int, const Eigen::Isometry3d & p) {
        reg::Mats J;
        reg::Vecs v;
        const Eigen::Quaterniond q(p.linear());
        for (int i = 0; i < n + 6; i++) {
          const Eigen::Vector3d x(std::cos(i * 1.3), std::sin(i * 2.1), std::cos(i * 0.7 + 1));
          const Eigen::Vector3d y = p * x;
          const double u = f1 * y.dot(i % 2 ? a : b) + i;
          Eigen::VectorXd vi(1);
          vi(0) = std::sin(u) + 0.01 * u;
          Eigen::MatrixXd Ji(1, 7);
          const Eigen::RowVector3d g = (std::cos(u) + 0.01) * f1 * (i % 2 ? a : b).transpose();
          Ji << g * reg::rotation_derivative(q, x), g;
          J.push_back(Ji);
          v.push_back(vi);
        }
        return std::make_tuple(J, v);
      };
  }
  vh::note(desc);
  c.mark(static_cast<uint64_t>(kind * 100 + max_iter));
  c.mark(start.translation()(0));
  const auto log = rec.log;
  const OptimizationResult got = [&]() {
      if (max_iter == 20) {
        return Optimizer<Recorder, int>(rec).Run(77, start);   // the default limit
      }
      return Optimizer<Recorder, int>(rec, max_iter).Run(77, start);
    }();
  const int evals = static_cast<int>(log->size());
  desc += vh::fmt(" -> %d evaluations, success %d, iteration %d, '%s'", evals, got.success, got.iteration, got.message.c_str());
  vh::note(desc);
  c.desc = desc;
  c.nontrivial = evals > 0;
  VH_CHECK(evals <= max_iter, "too-many-evaluations", "%d of at most %d", evals, max_iter);
  VH_CHECK(reg::is_rigid(got.pose, 1e-9), "not-rigid", "%s", shown(got.pose.matrix()).c_str());
  auto near = [](const Eigen::Isometry3d & a, const Eigen::Isometry3d & b, double tol) {
      return (a.linear() - b.linear()).norm() <= tol && (a.translation() - b.translation()).norm() <= tol * (1 + b.translation().norm());
    };
  if (evals == 0) {
    VH_CHECK(max_iter == 0, "no-evaluation", "the problem was never evaluated");
    VH_CHECK(!got.success && got.iteration == 0 && near(got.pose, start, 1e-12), "limit-zero", "success %d iteration %d", got.success, got.iteration);
    vh::count("limit_zero");
    return;
  }
  VH_CHECK(near((*log)[0].pose, start, 1e-12), "start", "the first evaluation is at %s", shown((*log)[0].pose).c_str());
  double prev_error = INFINITY, prev_scale = INFINITY;
  for (int i = 0; i < evals; i++) {
    const auto & ev = (*log)[i];
    const bool last = i == evals - 1;
    VH_CHECK(reg::is_rigid(ev.pose, 1e-9), "not-rigid", "evaluation %d at %s", i, shown(ev.pose.matrix()).c_str());
    if (ev.r.empty()) {
      VH_CHECK(last, "went-on", "after an empty problem at evaluation %d", i);
      VH_CHECK(!got.success && got.iteration == i && near(got.pose, ev.pose, 1e-12) && got.error == 0. && got.error_scale == 0., "empty", "success %d iteration %d pose %s", got.success, got.iteration, shown(got.pose).c_str());
      vh::count("exit_empty");
      return;
    }
    const std::vector<double> e = reg::errors_of(ev.r);
    double error = 0;
    for (double x : e) {error += x;}
    const double scale = reg::scale_of(e);
    const double etol = 1e-12 * error, stol = 1e-12 * error;
    // the two decisions, where they have a margin against rounding
    const bool same = i > 0 && ev.r == (*log)[i - 1].r;       // then so are error and scale, to the last bit: no increase
    const bool error_up = error > prev_error + etol, error_maybe = !same && error > prev_error - etol;
    const bool scale_up = scale > prev_scale + stol, scale_maybe = !same && scale > prev_scale - stol;
    if (same) {vh::count("unchanged_errors");}
    auto check_result = [&](bool success, int iteration, const Eigen::Isometry3d & pose, double tol, const char * what) {
        VH_CHECK(got.success == success, "success", "%s at evaluation %d: success %d", what, i, got.success);
        VH_CHECK(got.iteration == iteration, "iteration", "%s: %d, expected %d", what, got.iteration, iteration);
        VH_CHECK(vh::close(got.error, error, 1e-12, 0), "error", "%s: %.17g, expected %.17g", what, got.error, error);
        VH_CHECK(vh::close(got.error_scale, scale, 1e-9, 1e-12 * error), "scale", "%s: %.17g, expected %.17g", what, got.error_scale, scale);
        VH_CHECK(near(got.pose, pose, tol), "pose", "%s: %s, expected %s", what, shown(got.pose).c_str(), shown(pose).c_str());
      };
    if (error_up || scale_up) {
      VH_CHECK(last, "went-on", "evaluation %d: error %.17g after %.17g, scale %.17g after %.17g", i, error, prev_error, scale, prev_scale);
      check_result(true, i, ev.pose, 1e-12, "increase");
      vh::count(error_up ? "exit_error" : "exit_scale");
      return;
    }
    const reg::Step step = reg::gauss_newton(reg::tangent7(Eigen::Quaterniond(ev.pose.linear())), reg::weights_of(e, scale), ev.J, ev.r);
    const bool degenerate = step.smallest < 0.1;
    double jbig = 0;
    for (const auto & J : ev.J) {jbig += J.squaredNorm();}
    // with hardly any scale the weights themselves are rounding noise
    const bool unsure = std::abs(step.smallest - 0.1) < 1e-12 * (1 + jbig) || (!degenerate && step.cond > 1e8) || scale < 1e-10 * *std::max_element(e.begin(), e.end());
    const reg::Vec6 dx = degenerate ? reg::Vec6(reg::Vec6::Zero()) : step.dx;
    const Eigen::Isometry3d next = moved(ev.pose, dx.head(3), dx.tail(3));
    const double tol = 1e-13 * step.cond * (1 + dx.norm()) + 1e-9 * (1 + dx.norm()) + 2e-8;
    if (last) {
      const double half = std::abs(std::sin(dx.head(3).norm() / 2)), len = dx.tail(3).norm();
      const bool converged = half < 1e-3 && len < 1e-3;
      const bool margin = std::abs(half - 1e-3) > tol && std::abs(len - 1e-3) > tol;
      if (i + 1 == max_iter && !(margin && !unsure && converged)) {
        if ((error_maybe || scale_maybe || unsure || !margin) && got.success) {vh::count("exits_unsure"); return;}
        check_result(false, max_iter, unsure ? got.pose : next, tol, "limit");
        vh::count("exit_limit");
        return;
      }
      if (error_maybe || scale_maybe) {
        if (near(got.pose, ev.pose, 1e-12)) {VH_CHECK(got.success, "success", "tie at evaluation %d", i); vh::count("exits_unsure"); return;}
      }
      if (unsure || !margin) {
        VH_CHECK(got.success && got.iteration == i, "success", "evaluation %d is the last of %d: success %d iteration %d", i, max_iter, got.success, got.iteration);
        vh::count("exits_unsure");
        return;
      }
      VH_CHECK(converged, "stopped", "after evaluation %d of %d although the step is %s, error %.17g after %.17g, scale %.17g after %.17g", i, max_iter, shown(dx.transpose()).c_str(), error, prev_error, scale, prev_scale);
      check_result(true, i, next, tol, "convergence");
      vh::count("exit_converged");
      return;
    }
    if (!unsure) {
      VH_CHECK(near((*log)[i + 1].pose, next, tol), "step", "from evaluation %d to %s, expected %s", i, shown((*log)[i + 1].pose).c_str(), shown(next).c_str());
      vh::count("steps_followed");
      const double half = std::abs(std::sin(dx.head(3).norm() / 2)), len = dx.tail(3).norm();
      VH_CHECK(!(half < 1e-3 - tol && len < 1e-3 - tol), "went-on", "although converged at evaluation %d", i);
    }
    prev_error = error;
    prev_scale = scale;
  }
}
#endif

#if !defined(ONLY) || ONLY == 20
// ------------------------------------------------------------------ C20
static OptimizationResult align(const Eigen::MatrixXd & X, const Eigen::MatrixXd & Y, const Eigen::Isometry3d & start)
{
  const AlignmentProblem problem;
  using Arg = std::tuple<Eigen::MatrixXd, Eigen::MatrixXd>;
  const Optimizer<AlignmentProblem, Arg> opt(problem, 40);
  return opt.Run(std::make_tuple(X, Y), start);
}
static bool same_pose(const Eigen::Isometry3d & a, const Eigen::Isometry3d & b) {return a.matrix() == b.matrix();}

// exact correspondences: any true pose, any start within one radian and three times the size of the cloud
static void align_case(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const int n = static_cast<int>(r.chance(0.02) ? r.i(40, 2000) : r.i(6, 40));
  const double size = r.lg(1, 30);
  const bool near = r.chance(0.2);          // a start that is nearly right has to get better all the same
  const double rot = near ? r.lg(1e-7, 1) : r.u(), tr = 3 * size * (near ? r.lg(1e-7, 1) : r.u());
  const Eigen::Isometry3d truth = r.chance(0.05) ? Eigen::Isometry3d::Identity() : random_pose(r, size);
  const Eigen::Isometry3d start = r.chance(0.05) ? truth : moved(truth, rot * reg::random_unit(r), tr * reg::random_unit(r));
  Eigen::MatrixXd X(n, 3), Y(n, 3);
  for (int i = 0; i < n; i++) {
    const Eigen::Vector3d x(size * r.n(), size * r.n(), size * r.n());
    X.row(i) = x.transpose();
    Y.row(i) = (truth * x).transpose();
  }
  c.desc = vh::fmt("alignment of %d points of size %g, start %.3f rad and %.3f sizes away", n, size, rot, tr / size);
  vh::note(c.desc + " truth " + shown(truth) + " start " + shown(start) + " X " + shown(X));
  const OptimizationResult res = align(X, Y, start);
  const double er = reg::rotation_between(res.pose, truth), et = (res.pose.translation() - truth.translation()).norm() / size;
  VH_CHECK(er <= 1e-5 && et <= 1e-5, "alignment", "off by %.3g rad and %.3g sizes (%s)", er, et, res.message.c_str());
  VH_CHECK(res.success, "alignment-success", "%s", res.message.c_str());
  VH_CHECK(same_pose(align(X, Y, start).pose, res.pose), "repeatable", "another run ended elsewhere");
  vh::count("alignments");
  if (std::abs(Eigen::Quaterniond(truth.linear()).w()) < 0.5) {vh::count("alignments_large_rotation");}
}

// up to a fifth of the correspondences are moved by the same gross offset, which pulls plain least squares away
static void outlier_case(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const int n = static_cast<int>(r.i(20, 80));
  const double size = r.lg(1, 30);
  const double rot = 0.1 * r.u(), tr = 0.1 * size * r.u();
  const Eigen::Isometry3d truth = random_pose(r, size);
  const Eigen::Isometry3d start = moved(truth, rot * reg::random_unit(r), tr * reg::random_unit(r));
  Eigen::MatrixXd X(n, 3), Y(n, 3);
  const int bad = static_cast<int>(n * (r.chance(0.5) ? 0.2 : 0.1));
  const double mag = r.u(5, 10) * size;
  const Eigen::Vector3d bias = mag * reg::random_unit(r);
  for (int i = 0; i < n; i++) {
    const Eigen::Vector3d x(size * r.n(), size * r.n(), size * r.n());
    X.row(i) = x.transpose();
    Y.row(i) = (truth * x + (i < bad ? bias : Eigen::Vector3d(Eigen::Vector3d::Zero()))).transpose();
  }
  c.desc = vh::fmt("alignment of %d points of size %g, %d moved by %g", n, size, bad, mag);
  vh::note(c.desc + " truth " + shown(truth) + " start " + shown(start) + " X " + shown(X) + " Y " + shown(Y));
  const OptimizationResult res = align(X, Y, start);
  const double er = reg::rotation_between(res.pose, truth), et = (res.pose.translation() - truth.translation()).norm() / size;
  const Eigen::Matrix4d U = Eigen::umeyama(Eigen::Matrix3Xd(X.transpose()), Eigen::Matrix3Xd(Y.transpose()), false);
  const double plain = (U.topRightCorner<3, 1>() - truth.translation()).norm() / size;
  VH_CHECK(er <= 0.15 && et <= 0.25, "outliers", "off by %.3g rad and %.3g sizes, plain least squares by %.3g sizes (%s)", er, et, plain, res.message.c_str());
  vh::count("alignments_outliers");
  if (plain > 1.) {vh::count("outliers_pulling");}
}

struct Patch {Eigen::Vector3d c, a, b; bool line;};
static std::vector<Eigen::Vector3d> sample(vh::Rng & r, const std::vector<Patch> & ps, bool line, int per, double noise)
{
  std::vector<Eigen::Vector3d> v;
  for (const auto & p : ps) {
    if (p.line != line) {continue;}
    for (int i = 0; i < per; i++) {v.push_back(p.c + r.u(-2, 2) * p.a + (line ? 0. : r.u(-2, 2)) * p.b + noise * Eigen::Vector3d(r.n(), r.n(), r.n()));}
  }
  return v;
}
// patches (4 m x 4 m) and lines (4 m) in three directions, at least 6.5 m apart, the planes at least 1 m from the map's origin
static void scene_case(vh::Case & c)
{
  vh::Rng & r = c.rng;
  std::vector<Patch> ps;
  const int np = static_cast<int>(r.i(5, 8)), nl = static_cast<int>(r.i(4, 7));
  const Eigen::Isometry3d frame = random_pose(r, 20);
  const double noise = r.of({0., 0., 0.005, 0.02});
  const double wrong = r.of({0., 0., 0.05, 0.1});
  auto off_origin = [](const Eigen::Isometry3d & g, const Patch & p) {return p.line || std::abs((g * p.c).dot(g.linear() * p.a.cross(p.b))) > 1.0;};
  int tries = 0;
  while (static_cast<int>(ps.size()) < np + nl) {
    Patch p;
    p.line = static_cast<int>(ps.size()) >= np;
    const int axis = static_cast<int>(ps.size()) % 3;
    const Eigen::Vector3d nrm = (Eigen::Vector3d(Eigen::Vector3d::Unit(axis)) + 0.2 * reg::random_unit(r)).normalized();
    const Eigen::Vector3d a = nrm.cross(Eigen::Vector3d(Eigen::Vector3d::Unit((axis + 1) % 3))).normalized(), b = nrm.cross(a);
    p.a = p.line ? nrm : a;
    p.b = b;
    p.c = frame * Eigen::Vector3d(r.u(-15, 15), r.u(-15, 15), r.u(-8, 8));
    p.a = frame.linear() * p.a;
    p.b = frame.linear() * p.b;
    bool ok = off_origin(Eigen::Isometry3d::Identity(), p);
    for (const auto & o : ps) {ok = ok && (o.c - p.c).norm() > 6.5;}
    if (ok) {ps.push_back(p);}
    if (++tries > 20000) {ps.clear(); tries = 0;}
  }
  Eigen::Isometry3d G;
  for (bool ok = false; !ok; ) {
    G = random_pose(r, 30);
    ok = true;
    for (const auto & p : ps) {ok = ok && off_origin(G, p);}
  }
  const std::vector<Eigen::Vector3d> em = sample(r, ps, true, 100, noise), sm = sample(r, ps, false, 300, noise);
  const Eigen::Isometry3d truth = frame * moved(Eigen::Isometry3d::Identity(), r.u() * 3 * reg::random_unit(r), 3 * Eigen::Vector3d(r.n(), r.n(), r.n()));
  auto to_scan = [&](std::vector<Eigen::Vector3d> v) {
      for (auto & p : v) {
        p = truth.inverse() * p;
        if (r.chance(wrong)) {p += r.u(0.5, 4) * reg::random_unit(r);}      // a point of something that is not in the map
      }
      return cloud_of(v);
    };
  const CloudXYZ::Ptr es = to_scan(sample(r, ps, true, 30, noise)), ss = to_scan(sample(r, ps, false, 100, noise));
  const bool near = r.chance(0.2);
  const double rot = 0.15 * (near ? r.lg(1e-6, 1) : r.u()), tr = 0.7 * (near ? r.lg(1e-6, 1) : r.u());
  const Eigen::Isometry3d start = r.chance(0.05) ? truth : moved(truth, rot * reg::random_unit(r), tr * reg::random_unit(r));
  c.desc = vh::fmt("scene of %d patches and %d lines, noise %g, %g wrong, start %.3f rad and %.3f m away", np, nl, noise, wrong, rot, tr);
  vh::note(c.desc + " truth " + shown(truth) + " start " + shown(start));
  auto run = [&](const Eigen::Isometry3d & g, Eigen::Isometry3d & got) {
      std::vector<Eigen::Vector3d> a = em, b = sm;
      for (auto & p : a) {p = g * p;}
      for (auto & p : b) {p = g * p;}
      Localizer<PointXYZToVector, pcl::PointXYZ> loc(cloud_of(a), cloud_of(b), 40);
      loc.Init(g * start);
      const bool ok = loc.Update(std::make_tuple(es, ss));
      got = loc.Get();
      loc.Init(g * start);
      const bool again = loc.Update(std::make_tuple(es, ss));
      VH_CHECK(again == ok && same_pose(loc.Get(), got), "repeatable", "%s, then %s from the same start", shown(got).c_str(), shown(loc.Get()).c_str());
      return ok;
    };
  Eigen::Isometry3d got, moved_got;
  const bool ok = run(Eigen::Isometry3d::Identity(), got);
  const double er = reg::rotation_between(got, truth), et = (got.translation() - truth.translation()).norm();
  const double lr = wrong > 0 ? 0.01 : 0.4 * noise + 1e-5, lt = wrong > 0 ? 0.12 : 2 * noise + 1e-4;
  VH_CHECK(ok && er <= lr && et <= lt, "scene", "off by %.3g rad and %.3g m (allowed %.3g and %.3g), success %d", er, et, lr, lt, ok);
  vh::count(wrong > 0 ? "scenes_outliers" : noise > 0 ? "scenes_noise" : "scenes_exact");
  const bool ok2 = run(G, moved_got);
  const double dr = reg::rotation_between(moved_got, G * got), dt = (moved_got.translation() - (G * got).translation()).norm();
  VH_CHECK(ok2 && dr <= 2 * lr && dt <= 2 * lt, "equivariant", "in the moved map frame it ended %.3g rad and %.3g m from there (allowed %.3g and %.3g)", dr, dt, 2 * lr, 2 * lt);
  vh::count("scenes_moved");
}
static void run_c20(vh::Case & c)
{
  c.nontrivial = true;
  const int kind = static_cast<int>(c.rng.i(0, 9));
  if (kind < 2) {scene_case(c);} else if (kind < 6) {align_case(c);} else {outlier_case(c);}
  c.mark(c.desc);
}
#endif

#if !defined(ONLY) || ONLY == 21
// ------------------------------------------------------------------ C21
static void run_c21(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const int d = static_cast<int>(r.chance(0.6) ? 3 : r.i(1, 6));
  const bool large = r.chance(0.012);
  const int n = static_cast<int>(large ? r.lg(1000, 80000) : r.chance(0.05) ? 0 : r.chance(0.4) ? r.i(1, 20) : r.i(1, 400));
  if (n > 10000) {vh::count("large_maps");}
  const int k = static_cast<int>(r.chance(0.5) ? r.of({1, 5, 15}) : r.chance(0.1) ? r.i(61, 300) : r.i(1, 60));
  const int leaf = static_cast<int>(r.of({1, 2, 10, 10, 50, 500}));
  const int kind = static_cast<int>(r.i(0, 4));
  const double size = r.lg(1e-3, 1e4);
  auto point = [&]() {
      Eigen::VectorXd v(d);
      for (int a = 0; a < d; a++) {
        v(a) = kind == 0 ? size * r.n() :                          // anything
          kind == 1 ? static_cast<double>(r.i(-2, 2)) :            // duplicates and ties
          kind == 2 ? (a == 0 ? size * r.n() : 0.) :               // on a line
          kind == 3 ? 1e6 + size * r.n() :                         // far from the origin
          static_cast<double>(static_cast<float>(r.u(-50, 50)));
      }
      return v;
    };
  Eigen::MatrixXd map(n, d);
  for (int i = 0; i < n; i++) {map.row(i) = point().transpose();}
  if (n > 3 && r.chance(0.2)) {for (int i = 0; i < n / 2; i++) {map.row(r.i(0, n - 1)) = map.row(r.i(0, n - 1)).eval();}}
  c.desc = vh::fmt("%d points of dimension %d, k %d, leaf %d, kind %d", n, d, k, leaf, kind);
  c.mark(static_cast<uint64_t>(n * 7 + d));
  c.mark(size);
  c.nontrivial = n > 0;
  std::vector<int> perm(n);
  std::iota(perm.begin(), perm.end(), 0);
  r.shuffle(perm);
  const Eigen::MatrixXd map2 = reg::rows_of(map, perm);
  auto hold = std::make_unique<Eigen::MatrixXd>(map);
  const KDTreeEigen tree(*hold, leaf), other(map2, static_cast<int>(r.of({1, 3, 20})));
  hold->setConstant(12345.);      // the tree has its own copy of the map
  hold.reset();
  const int queries = static_cast<int>(r.chance(0.05) ? r.i(10, 60) : r.i(1, 5));
  const int k0 = k;
  Eigen::VectorXd last;
  for (int qi = 0; qi < queries; qi++) {
    Eigen::VectorXd q = n > 0 && r.chance(0.2) ? Eigen::VectorXd(map.row(r.i(0, n - 1)).transpose()) : Eigen::VectorXd(point());
    if (qi && r.chance(0.3)) {      // the last query again, or one close to it
      q = last;
      if (r.chance(0.7)) {for (int a = 0; a < d; a++) {q(a) += r.lg(1e-9, 1e-1) * size * r.n();}}
      vh::count("close_queries");
    }
    last = q;
    const int k = static_cast<int>(r.chance(0.7) ? k0 : r.chance(0.1) ? r.i(61, 300) : r.i(1, 60));
    if (k > 60) {vh::count("many_neighbours");}
    vh::note(c.desc + " query " + shown(q.transpose()) + (n <= 400 ? " map " + shown(map) : std::string()));
    const auto got = tree.NearestKSearch(q, k);
    const Eigen::MatrixXd & X = std::get<0>(got);
    const std::vector<double> & dist = std::get<1>(got);
    const reg::Neighbours want = reg::nearest(map, q, k);
    const int m = std::min(k, n);
    VH_CHECK(X.rows() == m && static_cast<int>(dist.size()) == m && X.cols() == d, "count", "%ld rows of %ld columns and %zu distances, expected %d", X.rows(), X.cols(), dist.size(), m);
    std::map<std::vector<double>, int> left;
    for (int i = 0; i < n; i++) {
      if ((map.row(i).transpose() - q).squaredNorm() <= want.d2.back() * (1 + 1e-9)) {left[std::vector<double>(map.row(i).begin(), map.row(i).end())]++;}
    }
    for (int i = 0; i < m; i++) {
      const std::vector<double> row(X.row(i).begin(), X.row(i).end());
      VH_CHECK(left[row]-- > 0, "row", "of the nearest rows, row %d (%s) is not in the map, or there too often", i, shown(X.row(i)).c_str());
      const double own = (X.row(i).transpose() - q).squaredNorm();
      VH_CHECK(vh::close(dist[i], own, 1e-12, 0), "distance", "row %d: %.17g, its squared distance is %.17g", i, dist[i], own);
      VH_CHECK(vh::close(dist[i], want.d2[i], 1e-12, 0), "nearest", "row %d is at %.17g, the nearest at %.17g", i, dist[i], want.d2[i]);
      if (i) {VH_CHECK(dist[i - 1] <= dist[i], "order", "row %d", i);}
    }
    const auto again = other.NearestKSearch(q, k);
    VH_CHECK(std::get<1>(again).size() == dist.size(), "leaf-size", "%zu", std::get<1>(again).size());
    for (int i = 0; i < m; i++) {
      VH_CHECK(vh::close(std::get<1>(again)[i], dist[i], 1e-12, 0), "leaf-size", "row %d: %.17g with another leaf size and map order, %.17g before", i, std::get<1>(again)[i], dist[i]);
    }
    vh::count("queries");
    if (n < k) {vh::count("small_maps");}
    if (n == 0) {vh::count("empty_maps");}
    if (want.gap == 0) {vh::count("ties");}
  }
  // the tree of a cloud holds the cloud's points
  if (n > 0 && n < 60) {
    CloudCR::Ptr cloud(new CloudCR());
    Eigen::MatrixXd P(n, 4);
    for (int i = 0; i < n; i++) {
      cloud->push_back(PointXYZCR(static_cast<float>(r.n()), static_cast<float>(r.n()), static_cast<float>(r.n()), static_cast<float>(r.i(0, 3)), static_cast<uint16_t>(i)));
      P.row(i) << (*cloud)[i].x, (*cloud)[i].y, (*cloud)[i].z, (*cloud)[i].curvature;
    }
    const auto t4 = MakeKDTree<PointXYZCRToVector, PointXYZCR>(cloud);
    const auto t3 = MakeKDTree<PointXYZCRToXYZVector, PointXYZCR>(cloud);
    const Eigen::Vector4d q(r.n(), r.n(), r.n(), r.n());
    const auto g4 = t4->NearestKSearch(q, k);
    const Eigen::VectorXd q3 = q.head(3);
    const auto g3 = t3->NearestKSearch(q3, k);
    const Eigen::MatrixXd P3 = P.leftCols(3);
    const auto w4 = reg::nearest(P, q, k), w3 = reg::nearest(P3, q3, k);
    VH_CHECK(std::get<1>(g4).size() == w4.d2.size() && std::get<1>(g3).size() == w3.d2.size(), "cloud-count", "%zu", std::get<1>(g4).size());
    for (size_t i = 0; i < w4.d2.size(); i++) {
      VH_CHECK(vh::close(std::get<1>(g4)[i], w4.d2[i], 1e-12, 0) && vh::close(std::get<1>(g3)[i], w3.d2[i], 1e-12, 0), "cloud-nearest", "row %zu", i);
    }
    vh::count("clouds");
  }
}
#endif

void vh_case(vh::Case & c)
{
  const std::string & m = vh::opt().mode;
#if !defined(ONLY) || ONLY == 17
  if (m == "C17") {return run_c17(c);}
#endif
#if !defined(ONLY) || ONLY == 18
  if (m == "C18") {return run_c18(c);}
#endif
#if !defined(ONLY) || ONLY == 19
  if (m == "C19") {return run_c19(c);}
#endif
#if !defined(ONLY) || ONLY == 20
  if (m == "C20") {return run_c20(c);}
#endif
#if !defined(ONLY) || ONLY == 21
  if (m == "C21") {return run_c21(c);}
#endif
  vh::fail("mode", m);
}
}  // namespace monitor

void vh_case(vh::Case & c) {monitor::vh_case(c);}
