// Library functions against their definitions.
// modes: C08 (statistics, index helpers, views), C09 (conversions), C10 (rotations)
#include "vh.hpp"
#include <algorithm>
#include <numeric>
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
#include "lidar_feature_library/algorithm.hpp"
#include "lidar_feature_library/convert_point_cloud_type.hpp"
#include "lidar_feature_library/degree_to_radian.hpp"
#include "lidar_feature_library/eigen.hpp"
#include "lidar_feature_library/numeric.hpp"
#include "lidar_feature_library/pcl_utils.hpp"
#include "lidar_feature_library/point_type.hpp"
#include "lidar_feature_library/random.hpp"
#include "lidar_feature_library/ros_msg.hpp"
#include "lidar_feature_library/span.hpp"
#include "lidar_feature_library/stats.hpp"
#include "lidar_feature_extraction/algorithm.hpp"
#include "lidar_feature_extraction/mapped_points.hpp"
#include "lidar_feature_localization/filter.hpp"
#include "lidar_feature_localization/math.hpp"
#include "lidar_feature_localization/point_to_vector.hpp"
#include "lidar_feature_localization/pointcloud_to_matrix.hpp"
#include "lidar_feature_localization/posevec.hpp"
#include "rotationlib/hat.hpp"
#include "rotationlib/jacobian/quaternion.hpp"
#include "rotationlib/quaternion.hpp"
#include "ext_common.hpp"

namespace monitor
{
template<typename T>
static std::string shown(const T & v)
{
  std::string s;
  for (auto x : v) {s += vh::fmt("%.9g ", static_cast<double>(x));}
  return s;
}
static std::string shownm(const Eigen::MatrixXd & m)
{
  std::string s;
  for (int i = 0; i < m.rows(); i++) {
    for (int j = 0; j < m.cols(); j++) {s += vh::fmt("%.9g ", m(i, j));}
    s += "; ";
  }
  return s;
}
static bool same_bits(double a, double b) {return std::memcmp(&a, &b, 8) == 0 || a == b;}

static std::vector<double> values(vh::Rng & r, int n)
{
  const int kind = static_cast<int>(r.i(0, 5));
  const double offset = r.of({1e6, -1e6, 1e8, 1.7e9});
  std::vector<double> v(n);
  for (int k = 0; k < n; k++) {
    switch (kind) {
      case 0: v[k] = static_cast<double>(r.i(-3, 3)); break;         // many duplicates
      case 1: v[k] = r.n(); break;
      case 2: v[k] = r.lg(1e-300, 1e300) * r.sign(); break;
      case 3: v[k] = k; break;                                       // ascending
      case 4: v[k] = -k; break;                                      // descending
      default: v[k] = offset + r.n(); break;
    }
  }
  return v;
}

// ------------------------------------------------------------------ C08
static void run_c08(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const bool large = r.chance(0.008);
  const int n = static_cast<int>(large ? r.i(1000, r.chance(0.3) ? 100000 : 8000) : r.chance(0.5) ? r.i(0, 8) : r.i(0, 200));
  if (large) {vh::count("long_vectors");}
  const std::vector<double> v = values(r, n);
  vh::note(vh::fmt("n %d values %s", n, shown(std::vector<double>(v.begin(), v.begin() + std::min(n, 300))).c_str()));
  c.mark(static_cast<uint64_t>(n));
  for (double x : v) {c.mark(x);}
  Eigen::VectorXd ev(n);
  Eigen::ArrayXd ea(n);
  for (int k = 0; k < n; k++) {ev(k) = v[k]; ea(k) = v[k];}
  // median
  if (n == 0) {
    VH_CHECK(vh::throws([&] {Median(ev);}) && vh::throws([&] {Median(ea);}), "median-empty", "accepted");
    vh::count("median_refused");
  } else {
    std::vector<double> s = v;
    std::sort(s.begin(), s.end());
    const double want = n % 2 ? s[n / 2] : (s[n / 2 - 1] + s[n / 2]) / 2.;
    const double a = Median(ev), b = Median(ea);
    const double tol = 4e-16 * std::max(std::abs(s[n / 2]), std::abs(s[(n - 1) / 2]));
    VH_CHECK(vh::close(a, want, 1e-15, tol) && vh::close(b, want, 1e-15, tol), "median", "%.17g and %.17g, expected %.17g", a, b, want);
    bool kept = true;
    for (int k = 0; k < n; k++) {kept = kept && ev(k) == v[k] && ea(k) == v[k];}
    VH_CHECK(kept, "median-argument", "the argument was changed");
    vh::count(n % 2 ? "median_odd" : "median_even");
  }
  // sample standard deviation
  if (n >= 2) {
    long double mean = 0, ss = 0, big = 0;
    for (double x : v) {mean += x; big = std::max<long double>(big, std::abs(x));}
    mean /= n;
    for (double x : v) {ss += (x - mean) * (x - mean);}
    if (big < 1e140L && big > 1e-140L) {
      const double want = static_cast<double>(std::sqrt(ss / (n - 1)));
      const double got = SampleStandardDeviation(ev);
      // the mean is off by n roundings at most, the deviation by no more than that
      VH_CHECK(vh::close(got, want, 1e-11, 4e-16 * (n + 4) * static_cast<double>(big)), "sample-stddev", "%.17g, expected %.17g", got, want);
      vh::count("stddevs");
    }
  }
  // three values
  {
    Eigen::Vector3d t(r.i(-2, 2), r.i(-2, 2), r.chance(0.5) ? r.n() : r.i(-2, 2));
    if (r.chance(0.3)) {t = Eigen::Vector3d(r.n(), r.n(), r.n());}
    double w[3] = {t(0), t(1), t(2)};
    std::sort(w, w + 3);
    const Eigen::Vector3d g = SortThreeValues(t);
    VH_CHECK(g(0) == w[0] && g(1) == w[1] && g(2) == w[2], "sort-three", "%g %g %g gave %g %g %g", t(0), t(1), t(2), g(0), g(1), g(2));
  }
  // index helpers
  std::vector<int> labels(n);
  for (auto & l : labels) {l = static_cast<int>(r.i(0, 4));}
  const int label = static_cast<int>(r.i(0, 5));
  std::vector<size_t> want_idx;
  for (int k = 0; k < n; k++) {if (labels[k] == label) {want_idx.push_back(k);}}
  VH_CHECK(GetIndicesByValue(labels, label) == want_idx, "indices-by-value", "label %d in %s", label, shown(labels).c_str());
  std::vector<size_t> pick;
  if (n > 0) {
    const int m = static_cast<int>(r.i(0, large ? n : 30));
    for (int k = 0; k < m; k++) {pick.push_back(r.i(0, n - 1));}
  }
  const auto got = GetByIndices(pick, v);
  VH_CHECK(got.size() == pick.size(), "by-indices-size", "%zu", got.size());
  for (size_t k = 0; k < pick.size(); k++) {VH_CHECK(got[k] == v[pick[k]], "by-indices", "position %zu", k);}
  {
    auto bad = pick;
    bad.insert(bad.begin() + r.i(0, bad.size()), n + r.i(0, 3));
    VH_CHECK(vh::throws([&] {GetByIndices(bad, v);}), "by-indices-range", "index beyond %d accepted", n);
  }
  std::vector<bool> flags(n);
  std::vector<double> want_f;
  for (int k = 0; k < n; k++) {
    flags[k] = r.chance(0.4);
    if (flags[k]) {want_f.push_back(v[k]);}
  }
  VH_CHECK(Filter(flags, v) == want_f, "filter", "%zu values, expected %zu", Filter(flags, v).size(), want_f.size());
  // argsort, also from a pair of temporary iterators
  {
    const auto a = r.chance(0.5) ? Argsort(v.begin(), v.end()) : Argsort(v.cbegin(), v.cend());
    std::vector<int> s = a;
    std::sort(s.begin(), s.end());
    VH_CHECK(static_cast<int>(a.size()) == n, "argsort-size", "%zu", a.size());
    for (int k = 0; k < n; k++) {
      VH_CHECK(s[k] == k, "argsort-permutation", "%s", shown(a).c_str());
      if (k) {VH_CHECK(v[a[k - 1]] <= v[a[k]], "argsort-order", "position %d", k);}
    }
    const auto ir = irange(n);
    VH_CHECK(static_cast<int>(ir.size()) == n, "irange", "%zu", ir.size());
    for (int k = 0; k < n; k++) {VH_CHECK(ir[k] == k, "irange", "%d", ir[k]);}
  }
  // randomized indices
  {
    const auto a = RandomizedUniqueIndices(n);
    std::vector<size_t> s = a;
    std::sort(s.begin(), s.end());
    VH_CHECK(static_cast<int>(s.size()) == n, "random-indices-size", "%zu", s.size());
    for (int k = 0; k < n; k++) {VH_CHECK(s[k] == static_cast<size_t>(k), "random-indices", "no permutation: %s", shown(a).c_str());}
    if (n > 20 && a != s) {vh::count("shuffles_seen");}
  }
  // gathering and stacking
  {
    const int cols = static_cast<int>(r.i(1, 6));
    Eigen::MatrixXd M(n, cols);
    for (int i = 0; i < n; i++) {for (int j = 0; j < cols; j++) {M(i, j) = i * 10 + j;}}
    std::vector<std::uint64_t> rows(pick.begin(), pick.end());
    const Eigen::MatrixXd G = GetRows(M, rows);
    VH_CHECK(G.rows() == static_cast<int>(rows.size()) && G.cols() == cols, "rows-size", "%ld x %ld", G.rows(), G.cols());
    for (size_t i = 0; i < rows.size(); i++) {
      for (int j = 0; j < cols; j++) {VH_CHECK(G(i, j) == M(rows[i], j), "rows", "row %zu", i);}
    }
    std::vector<Eigen::Matrix<double, 3, 7>, Eigen::aligned_allocator<Eigen::Matrix<double, 3, 7>>> dummy;
    std::vector<Eigen::Matrix<double, 3, 7>> blocks(large ? n % 3000 : n % 12);
    for (auto & b : blocks) {for (int k = 0; k < 21; k++) {b(k / 7, k % 7) = r.n();}}
    const Eigen::MatrixXd H = HorizontalStack<3, 7>(blocks);
    VH_CHECK(H.rows() == 3 * static_cast<int>(blocks.size()) && H.cols() == 7, "stack-size", "%ld x %ld", H.rows(), H.cols());
    for (size_t b = 0; b < blocks.size(); b++) {
      VH_CHECK((H.block(3 * b, 0, 3, 7).array() == blocks[b].array()).all(), "stack", "block %zu", b);
    }
    std::vector<Eigen::Matrix<double, 4, 1>> vs(large ? n % 3001 : n % 15);
    for (auto & x : vs) {x = Eigen::Vector4d(r.n(), r.n(), r.n(), r.n());}
    const Eigen::MatrixXd V = VectorsToEigen<4>(vs);
    VH_CHECK(V.rows() == static_cast<int>(vs.size()) && V.cols() == 4, "vectors-size", "%ld x %ld", V.rows(), V.cols());
    for (size_t i = 0; i < vs.size(); i++) {for (int j = 0; j < 4; j++) {VH_CHECK(V(i, j) == vs[i](j), "vectors", "row %zu", i);}}
    const Eigen::VectorXd X = VectorToEigen(v);
    VH_CHECK(X.size() == n, "vector-size", "%ld", X.size());
    for (int k = 0; k < n; k++) {VH_CHECK(X(k) == v[k], "vector", "element %d", k);}
  }
  // non-finite values
  {
    Eigen::MatrixXd M = Eigen::MatrixXd::Zero(r.i(1, 6), r.i(1, 6));
    const bool nan = r.chance(0.5), inf = r.chance(0.5);
    if (nan) {M(r.i(0, M.rows() - 1), r.i(0, M.cols() - 1)) = NAN;}
    const int i = static_cast<int>(r.i(0, M.rows() - 1)), j = static_cast<int>(r.i(0, M.cols() - 1));
    const bool put = inf && !std::isnan(M(i, j));
    if (put) {M(i, j) = r.sign() * INFINITY;}
    VH_CHECK(HasNan(M) == nan, "has-nan", "%s", shownm(M).c_str());
    VH_CHECK(HasInf(M) == put, "has-inf", "%s", shownm(M).c_str());
  }
  // views
  {
    std::vector<int> store(n + 10);
    for (size_t k = 0; k < store.size(); k++) {store[k] = static_cast<int>(k) * 7;}
    const int b = static_cast<int>(r.i(0, store.size())), e = static_cast<int>(r.i(b, store.size()));
    span<int> s(store.begin() + b, store.begin() + e);
    const const_span<int> cs(store.cbegin() + b, store.cbegin() + e);
    VH_CHECK(s.size() == e - b && cs.size() == e - b, "span-size", "%d, %d for [%d,%d)", s.size(), cs.size(), b, e);
    for (int k = 0; k < e - b; k++) {
      VH_CHECK(s.at(k) == store[b + k] && cs.at(k) == store[b + k], "span-read", "element %d of [%d,%d)", k, b, e);
    }
    int m = b;
    for (int x : s) {VH_CHECK(x == store[m], "span-iteration", "element %d", m - b); m++;}
    VH_CHECK(m == e, "span-iteration", "%d elements", m - b);
    auto before = store;
    if (e > b) {
      const int k = static_cast<int>(r.i(0, e - b - 1));
      s.at(k) = -1;
      before[b + k] = -1;
      VH_CHECK(store == before && cs.at(k) == -1, "span-write", "element %d of [%d,%d)", k, b, e);
      vh::count("span_writes");
    }
    for (int k : {-1, e - b, e - b + 1, -1000000, 1 << 30}) {
      VH_CHECK(vh::throws([&] {s.at(k);}) && vh::throws([&] {cs.at(k);}), "span-range", "index %d of %d accepted", k, e - b);
    }
    // points through an index list
    pcl::PointCloud<pcl::PointXYZ>::Ptr cloud(new pcl::PointCloud<pcl::PointXYZ>());
    std::vector<int> idx;
    for (int k = 0; k < n; k++) {cloud->push_back(pcl::PointXYZ(k, 2 * k, 3 * k)); idx.push_back(k);}
    r.shuffle(idx);
    idx.resize(n - n / 3);
    const MappedPoints<pcl::PointXYZ> mp(cloud, idx);
    VH_CHECK(mp.size() == static_cast<int>(idx.size()), "mapped-size", "%d", mp.size());
    for (int k = 0; k < mp.size(); k++) {VH_CHECK(mp.at(k).x == idx[k] && mp.at(k).z == 3 * idx[k], "mapped-read", "element %d", k);}
    for (int k : {-1, mp.size(), mp.size() + 3}) {VH_CHECK(vh::throws([&] {mp.at(k);}), "mapped-range", "index %d of %d accepted", k, mp.size());}
    const int sb = static_cast<int>(r.i(0, mp.size())), se = static_cast<int>(r.i(sb, mp.size()));
    const auto sl = mp.Slice(sb, se);
    VH_CHECK(sl.size() == se - sb, "slice-size", "%d for [%d,%d)", sl.size(), sb, se);
    for (int k = sb; k < se; k++) {VH_CHECK(sl.at(k - sb).x == idx[k], "slice-read", "element %d of [%d,%d)", k, sb, se);}
    VH_CHECK(vh::throws([&] {sl.at(se - sb);}), "slice-range", "index beyond the slice accepted");
    // rows of chosen points
    std::vector<int> p2;
    for (size_t k : pick) {p2.push_back(static_cast<int>(k));}
    const Eigen::MatrixXd G = Get(cloud, p2);
    VH_CHECK(G.rows() == static_cast<int>(p2.size()) && G.cols() == 3, "get-size", "%ld", G.rows());
    for (size_t k = 0; k < p2.size(); k++) {
      VH_CHECK(G(k, 0) == p2[k] && G(k, 1) == 2 * p2[k] && G(k, 2) == 3 * p2[k], "get-row", "row %zu", k);
    }
    VH_CHECK(vh::throws([&] {ThrowsIfPointCloudIsEmpty<pcl::PointXYZ>(cloud);}) == (n == 0), "throws-if-empty", "%d points", n);
  }
  {
    const double d = r.n() * 360;
    VH_CHECK(vh::close(DegreeToRadian(d), d * M_PI / 180, 1e-14, 0), "degree", "%g", d);
  }
  c.nontrivial = true;
  c.desc = vh::note_().substr(0, 300);
}

// ------------------------------------------------------------------ C09
static Eigen::Quaterniond rot(vh::Rng & r)
{
  Eigen::Quaterniond q;
  switch (r.i(0, 5)) {
    case 0: q = Eigen::Quaterniond::Identity(); break;
    case 1: {                                  // turns by 180 degrees: w is near or exactly zero
        Eigen::Vector3d a(r.n(), r.n(), r.n());
        if (r.chance(0.4)) {a = Eigen::Vector3d::Unit(static_cast<int>(r.i(0, 2)));}
        a.normalize();
        const double w = r.of({0., 1e-9, -1e-9});
        q = Eigen::Quaterniond(w, a.x(), a.y(), a.z());
        break;
      }
    case 2: q = Eigen::AngleAxisd(r.u(-M_PI, M_PI), Eigen::Vector3d::Unit(static_cast<int>(r.i(0, 2)))); break;
    case 3: q = Eigen::AngleAxisd(r.lg(1e-12, 1e-3), Eigen::Vector3d(r.n(), r.n(), r.n()).normalized()); break;
    default: q = Eigen::Quaterniond(r.n(), r.n(), r.n(), r.n()); break;
  }
  q.normalize();
  return q;
}
static Eigen::Vector3d vec(vh::Rng & r)
{
  const double s = r.chance(0.2) ? r.lg(1e-6, 1e6) : 10;
  return Eigen::Vector3d(r.n(), r.n(), r.n()) * s;
}
static double rot_diff(const Eigen::Quaterniond & a, const Eigen::Quaterniond & b)
{
  return std::min((a.coeffs() - b.coeffs()).norm(), (a.coeffs() + b.coeffs()).norm());
}
// independent of Eigen's own conversion
static Eigen::Matrix3d matrix_of(const Eigen::Quaterniond & q)
{
  const double w = q.w(), x = q.x(), y = q.y(), z = q.z();
  Eigen::Matrix3d R;
  R(0, 0) = w * w + x * x - y * y - z * z; R(0, 1) = 2 * (x * y - w * z); R(0, 2) = 2 * (x * z + w * y);
  R(1, 0) = 2 * (x * y + w * z); R(1, 1) = w * w - x * x + y * y - z * z; R(1, 2) = 2 * (y * z - w * x);
  R(2, 0) = 2 * (x * z - w * y); R(2, 1) = 2 * (y * z + w * x); R(2, 2) = w * w - x * x - y * y + z * z;
  return R;
}
static std::string frame(vh::Rng & r) {return r.of<const char *>({"map", "base_link", "", "/odd frame", "lidar_feature_base_link", "a/b"});}

template<typename T>
static bool eq3(const T & m, const Eigen::Vector3d & v) {return m.x == v(0) && m.y == v(1) && m.z == v(2);}

static void run_c09(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const Eigen::Quaterniond q = rot(r);
  const Eigen::Vector3d t = vec(r), t2 = vec(r);
  const Eigen::Matrix3d R = matrix_of(q);
  const int32_t sec = static_cast<int32_t>(r.of<int64_t>({0, r.i(1, 100), r.i(1500000000, 2000000000), 2147483647}));
  const uint32_t nsec = static_cast<uint32_t>(r.of<int64_t>({0, 1, 999999999, r.i(0, 999999999)}));
  builtin_interfaces::msg::Time stamp_msg;
  stamp_msg.sec = sec;
  stamp_msg.nanosec = nsec;
  const rclcpp::Time stamp(stamp_msg);
  const std::string f = frame(r), f2 = frame(r);
  vh::note(vh::fmt("q %.17g %.17g %.17g %.17g t %.9g %.9g %.9g stamp %d.%09u frame '%s'", q.w(), q.x(), q.y(), q.z(), t(0), t(1), t(2), sec, nsec, f.c_str()));
  c.mark(vh::note_());
  auto header = [&](const std_msgs::msg::Header & h, const char * what) {
      VH_CHECK(h.stamp == stamp_msg, "stamp", "%s: %d.%09u", what, h.stamp.sec, h.stamp.nanosec);
      VH_CHECK(h.frame_id == f, "frame", "%s: '%s'", what, h.frame_id.c_str());
    };
  auto pose_ok = [&](const geometry_msgs::msg::Pose & m, const char * what) {
      VH_CHECK(eq3(m.position, t), "pose-position", "%s: %.17g %.17g %.17g", what, m.position.x, m.position.y, m.position.z);
      const Eigen::Quaterniond g(m.orientation.w, m.orientation.x, m.orientation.y, m.orientation.z);
      VH_CHECK(rot_diff(g, q) < 1e-9, "pose-orientation", "%s: %.17g %.17g %.17g %.17g", what, g.w(), g.x(), g.y(), g.z());
    };
  Eigen::Isometry3d pose = Eigen::Isometry3d::Identity();
  pose.linear() = R;
  pose.translation() = t;
  // pose -> message -> pose
  const geometry_msgs::msg::Pose pm = MakePose(pose);
  pose_ok(pm, "MakePose");
  const Eigen::Isometry3d back = GetIsometry3d(pm);
  VH_CHECK((back.matrix() - pose.matrix()).cwiseAbs().maxCoeff() <= 1e-9 && back.translation() == t, "pose-round-trip", "%s", shownm(back.matrix()).c_str());
  // message -> pose, from values that did not come from us
  geometry_msgs::msg::Pose in;
  in.position.x = t2(0); in.position.y = t2(1); in.position.z = t2(2);
  in.orientation.w = q.w(); in.orientation.x = q.x(); in.orientation.y = q.y(); in.orientation.z = q.z();
  const Eigen::Isometry3d iso = GetIsometry3d(in);
  VH_CHECK((iso.linear() - R).cwiseAbs().maxCoeff() < 1e-12 && iso.translation() == t2 && iso.matrix().row(3) == Eigen::RowVector4d(0, 0, 0, 1),
    "pose-from-message", "%s", shownm(iso.matrix()).c_str());
  // stamped forms
  const auto ps = MakePoseStamped(pose, stamp, f);
  header(ps.header, "MakePoseStamped");
  pose_ok(ps.pose, "MakePoseStamped");
  Matrix6d cov;
  std::array<double, 36> arr;
  for (int k = 0; k < 36; k++) {arr[k] = r.n(); }
  for (int i = 0; i < 6; i++) {for (int j = 0; j < 6; j++) {cov(i, j) = r.chance(0.1) ? 0. : r.n() + i * 10 + j;}}
  const auto pc = MakePoseWithCovariance(pose, cov);
  pose_ok(pc.pose, "MakePoseWithCovariance");
  const auto pcs = MakePoseWithCovarianceStamped(pose, cov, stamp, f);
  header(pcs.header, "MakePoseWithCovarianceStamped");
  pose_ok(pcs.pose.pose, "MakePoseWithCovarianceStamped");
  const Matrix6d E = GetEigenCovariance(arr);
  const std::array<double, 36> A = FromEigenCovariance(cov);
  for (int i = 0; i < 6; i++) {
    for (int j = 0; j < 6; j++) {
      VH_CHECK(E(i, j) == arr[6 * i + j], "covariance-from-message", "(%d,%d)", i, j);
      VH_CHECK(A[6 * i + j] == cov(i, j) && pc.covariance[6 * i + j] == cov(i, j) && pcs.pose.covariance[6 * i + j] == cov(i, j),
        "covariance-to-message", "(%d,%d)", i, j);
    }
  }
  VH_CHECK(FromEigenCovariance(GetEigenCovariance(arr)) == arr, "covariance-round-trip", "differs");
  const auto ts = MakeTransformStamped(pose, stamp, f, f2);
  header(ts.header, "MakeTransformStamped");
  VH_CHECK(ts.child_frame_id == f2, "child-frame", "'%s'", ts.child_frame_id.c_str());
  VH_CHECK(eq3(ts.transform.translation, t), "transform-translation", "differs");
  VH_CHECK(rot_diff(ToQuaterniond(ts.transform.rotation), q) < 1e-9, "transform-rotation", "differs");
  // points, vectors, quaternions, twists
  VH_CHECK(eq3(MakePoint(t), t) && ToVector3d(MakePoint(t)) == t, "point", "differs");
  VH_CHECK(eq3(MakeVector3(t), t) && ToVector3d(MakeVector3(t)) == t, "vector", "differs");
  geometry_msgs::msg::Quaternion qm;
  qm.w = q.w(); qm.x = q.x(); qm.y = q.y(); qm.z = q.z();
  VH_CHECK(ToQuaterniond(qm).coeffs() == q.coeffs(), "quaternion", "differs");
  const auto tw = MakeTwist(t, t2);
  VH_CHECK(eq3(tw.linear, t) && eq3(tw.angular, t2), "twist", "differs");
  const auto tws = MakeTwistStamped(t, t2, stamp, f);
  header(tws.header, "MakeTwistStamped");
  VH_CHECK(eq3(tws.twist.linear, t) && eq3(tws.twist.angular, t2), "twist-stamped", "differs");
  // rigid transforms
  const Eigen::Isometry3d mi = MakeIsometry3d(q, t), mp = MakePose(q, t);
  VH_CHECK((mi.matrix() - pose.matrix()).cwiseAbs().maxCoeff() < 1e-12, "make-isometry", "%s", shownm(mi.matrix()).c_str());
  VH_CHECK((mp.matrix() - pose.matrix()).cwiseAbs().maxCoeff() < 1e-12, "make-pose", "%s", shownm(mp.matrix()).c_str());
  const int dim = static_cast<int>(r.i(3, 7));
  Eigen::VectorXd p(dim);
  for (int k = 0; k < dim; k++) {p(k) = r.n() * 10;}
  const Eigen::VectorXd g = TransformXYZ(pose, p);
  VH_CHECK(g.size() == dim, "transform-xyz-size", "%ld", g.size());
  const Eigen::Vector3d want = R * p.head(3) + t;
  VH_CHECK((g.head(3) - want).norm() <= 1e-9 * (1 + want.norm()), "transform-xyz", "%s", shownm(g).c_str());
  for (int k = 3; k < dim; k++) {VH_CHECK(g(k) == p(k), "transform-xyz-rest", "element %d", k);}
  // clouds
  const bool large = r.chance(0.004);
  const int n = static_cast<int>(large ? r.i(5000, 80000) : r.chance(0.1) ? 0 : r.i(1, 40));
  if (large) {vh::count("large_clouds");}
  const double reach = r.chance(0.7) ? 20 : r.lg(1e-3, 1e4);
  pcl::PointCloud<PointXYZIR>::Ptr cloud(new pcl::PointCloud<PointXYZIR>());
  pcl::PointCloud<PointXYZCR>::Ptr cr(new pcl::PointCloud<PointXYZCR>());
  pcl::PointCloud<pcl::PointXYZ>::Ptr xyz(new pcl::PointCloud<pcl::PointXYZ>());
  ext::Sweep sweep;
  for (int k = 0; k < n; k++) {
    const Eigen::Vector3f v(static_cast<float>(r.n() * reach), static_cast<float>(r.n() * reach), static_cast<float>(r.n() * reach));
    const float i = static_cast<float>(r.u(0, 255));
    const uint16_t ring = static_cast<uint16_t>(r.of<int64_t>({0, 1, 255, 256, 65535, r.i(0, 127)}));
    cloud->push_back(PointXYZIR(v(0), v(1), v(2), i, ring));
    cr->push_back(PointXYZCR(v(0), v(1), v(2), i, ring));
    xyz->push_back(pcl::PointXYZ(v(0), v(1), v(2)));
    sweep.push_back(ext::P{v(0), v(1), v(2), i, ring});
  }
  {
    const Eigen::Affine3d aff(pose.matrix());
    const auto moved = TransformPointCloud<PointXYZCR>(aff, cr);
    const auto moved2 = TransformPointCloud<pcl::PointXYZ>(aff, xyz);
    VH_CHECK(static_cast<int>(moved->size()) == n && static_cast<int>(moved2->size()) == n, "transform-cloud-size", "%zu", moved->size());
    for (int k = 0; k < n; k++) {
      const Eigen::Vector3d o(xyz->at(k).x, xyz->at(k).y, xyz->at(k).z), w = R * o + t;
      const double tol = 1e-6 * (o.norm() + t.norm()) + 1e-30;
      const auto & a = moved->at(k);
      const auto & b = moved2->at(k);
      VH_CHECK((Eigen::Vector3d(a.x, a.y, a.z) - w).norm() < tol && (Eigen::Vector3d(b.x, b.y, b.z) - w).norm() < tol, "transform-cloud", "point %d", k);
      VH_CHECK(a.curvature == cr->at(k).curvature && a.ring == cr->at(k).ring, "transform-cloud-channels", "point %d", k);
      VH_CHECK(cr->at(k).x == sweep[k].x && cr->at(k).y == sweep[k].y && cr->at(k).z == sweep[k].z, "transform-cloud-argument", "point %d was changed", k);
    }
    vh::count("clouds_transformed");
    if (n && r.chance(0.3)) {      // points without a return stay what and where they are
      pcl::PointCloud<PointXYZCR>::Ptr holes(new pcl::PointCloud<PointXYZCR>(*cr));
      const int hole = static_cast<int>(r.i(0, n - 1));
      holes->at(hole).x = holes->at(hole).y = holes->at(hole).z = NAN;
      holes->is_dense = false;
      const auto m = TransformPointCloud<PointXYZCR>(aff, holes);
      VH_CHECK(static_cast<int>(m->size()) == n, "transform-cloud-size", "%zu points with a hole", m->size());
      for (int k = 0; k < n; k++) {
        VH_CHECK(m->at(k).curvature == cr->at(k).curvature && m->at(k).ring == cr->at(k).ring, "transform-cloud-channels", "point %d of a cloud with a hole", k);
        if (k == hole) {
          VH_CHECK(!std::isfinite(m->at(k).x) || !std::isfinite(m->at(k).y) || !std::isfinite(m->at(k).z), "transform-cloud-hole", "a point without a return became one");
        } else {
          const auto & w = moved->at(k);
          VH_CHECK(vh::close(m->at(k).x, w.x, 1e-6, 1e-6 * (t.norm() + reach)) && vh::close(m->at(k).y, w.y, 1e-6, 1e-6 * (t.norm() + reach)) && vh::close(m->at(k).z, w.z, 1e-6, 1e-6 * (t.norm() + reach)),
            "transform-cloud", "point %d of a cloud with a hole", k);
        }
      }
      vh::count("clouds_with_holes");
    }
  }
  auto same_ir = [&](const pcl::PointCloud<PointXYZIR> & d, const char * what) {
      VH_CHECK(static_cast<int>(d.size()) == n, "cloud-size", "%s: %zu points, expected %d", what, d.size(), n);
      for (int k = 0; k < n; k++) {
        VH_CHECK(d[k].x == sweep[k].x && d[k].y == sweep[k].y && d[k].z == sweep[k].z && d[k].intensity == sweep[k].intensity &&
          d[k].ring == sweep[k].ring, "cloud-channel", "%s: point %d is (%.9g,%.9g,%.9g,%.9g,%u)", what, k, d[k].x, d[k].y, d[k].z, d[k].intensity, d[k].ring);
      }
    };
  {
    const auto m = ToRosMsg<PointXYZIR>(cloud, stamp, f);
    header(m.header, "ToRosMsg");
    same_ir(*GetPointCloud<PointXYZIR>(m), "message and back");
    same_ir(*GetPointCloud<PointXYZIR>(ToRosMsg<PointXYZIR>(cloud)), "message without stamp and back");
    const auto back_cr = GetPointCloud<PointXYZCR>(ToRosMsg<PointXYZCR>(cr, stamp, f));
    VH_CHECK(static_cast<int>(back_cr->size()) == n, "cloud-size", "%zu", back_cr->size());
    for (int k = 0; k < n; k++) {
      VH_CHECK(back_cr->at(k).x == sweep[k].x && back_cr->at(k).y == sweep[k].y && back_cr->at(k).z == sweep[k].z &&
        back_cr->at(k).curvature == sweep[k].intensity && back_cr->at(k).ring == sweep[k].ring, "cloud-channel", "curvature cloud, point %d", k);
    }
    // decoded without PCL
    const auto seen = ext::decode(m, false, "message");
    VH_CHECK(static_cast<int>(seen.size()) == n, "cloud-size", "%zu decoded", seen.size());
    for (int k = 0; k < n; k++) {VH_CHECK(seen[k].x == sweep[k].x && seen[k].y == sweep[k].y && seen[k].z == sweep[k].z, "cloud-bytes", "point %d", k);}
    // layouts of other drivers
    const int layout = static_cast<int>(r.of({0, 1, 2, 3, 5}));
    same_ir(*GetPointCloud<PointXYZIR>(ext::to_msg(sweep, layout, sec, nsec, f, ext::pick_height(r, n))), "foreign layout");
    vh::count("clouds_converted");
  }
  {
    const auto a = ToPointXYZ<PointXYZCR>(cr);
    const auto b = ConvertPointCloudType<PointXYZIR, pcl::PointXYZ>(cloud);
    const auto d = ConvertPointCloudType<PointXYZIR, PointXYZCR>(cloud);
    VH_CHECK(static_cast<int>(a->size()) == n && static_cast<int>(b->size()) == n && static_cast<int>(d->size()) == n, "convert-size", "%zu %zu %zu", a->size(), b->size(), d->size());
    const Eigen::MatrixXd M4 = PointCloudToMatrix<PointXYZCRToVector, PointXYZCR>(cr);
    const Eigen::MatrixXd M3 = PointCloudToMatrix<PointXYZCRToXYZVector, PointXYZCR>(cr);
    const Eigen::MatrixXd N3 = PointCloudToMatrix<PointXYZToVector, pcl::PointXYZ>(xyz);
    VH_CHECK(M4.rows() == n && M4.cols() == 4 && M3.rows() == n && M3.cols() == 3 && N3.rows() == n && N3.cols() == 3, "matrix-size", "differs");
    std::vector<pcl::PointXYZ> pv(xyz->begin(), xyz->end());
    const auto pe = PointsToEigen(pv);
    VH_CHECK(static_cast<int>(pe.size()) == n, "points-size", "%zu", pe.size());
    for (int k = 0; k < n; k++) {
      const auto & s = sweep[k];
      VH_CHECK(a->at(k).x == s.x && a->at(k).y == s.y && a->at(k).z == s.z && b->at(k).x == s.x && b->at(k).y == s.y && b->at(k).z == s.z, "convert", "point %d", k);
      VH_CHECK(d->at(k).x == s.x && d->at(k).y == s.y && d->at(k).z == s.z && d->at(k).ring == s.ring, "convert-ring", "point %d", k);
      VH_CHECK(M4(k, 0) == s.x && M4(k, 1) == s.y && M4(k, 2) == s.z && M4(k, 3) == s.intensity, "matrix4", "row %d", k);
      VH_CHECK(M3(k, 0) == s.x && M3(k, 1) == s.y && M3(k, 2) == s.z && N3(k, 0) == s.x && N3(k, 1) == s.y && N3(k, 2) == s.z, "matrix3", "row %d", k);
      VH_CHECK(pe[k] == Eigen::Vector3d(s.x, s.y, s.z) && GetXYZ(xyz->at(k)) == pe[k], "points", "point %d", k);
      const auto mk = MakePointXYZ(pe[k]);
      VH_CHECK(mk.x == s.x && mk.y == s.y && mk.z == s.z, "make-point", "point %d", k);
    }
  }
  // line markers
  {
    auto lines = InitLines(stamp, f);
    header(lines.header, "InitLines");
    AddLine(lines, t, t2);
    AddLine(lines, t2, t);
    VH_CHECK(lines.type == visualization_msgs::msg::Marker::LINE_LIST && lines.points.size() == 4, "lines", "%zu points", lines.points.size());
    VH_CHECK(eq3(lines.points[0], t) && eq3(lines.points[1], t2) && eq3(lines.points[2], t2) && eq3(lines.points[3], t), "lines", "points differ");
    const float w = static_cast<float>(r.u()), cr_ = static_cast<float>(r.u()), cg = static_cast<float>(r.u()), cb = static_cast<float>(r.u()), ca = static_cast<float>(r.u());
    SetWidth(lines, w);
    SetColor(lines, cr_, cg, cb, ca);
    VH_CHECK(lines.scale.x == w && lines.color.r == cr_ && lines.color.g == cg && lines.color.b == cb && lines.color.a == ca, "lines-style", "differs");
  }
  vh::count("poses_converted");
  if (q.w() < 0) {vh::count("negative_w");}
  c.nontrivial = true;
  c.desc = vh::note_();
}

// ------------------------------------------------------------------ C10
static Eigen::Vector4d product(const Eigen::Vector4d & a, const Eigen::Vector4d & b)   // wxyz
{
  return Eigen::Vector4d(
    a(0) * b(0) - a(1) * b(1) - a(2) * b(2) - a(3) * b(3),
    a(0) * b(1) + a(1) * b(0) + a(2) * b(3) - a(3) * b(2),
    a(0) * b(2) - a(1) * b(3) + a(2) * b(0) + a(3) * b(1),
    a(0) * b(3) + a(1) * b(2) - a(2) * b(1) + a(3) * b(0));
}

static void run_c10(vh::Case & c)
{
  vh::Rng & r = c.rng;
  using namespace rotationlib;  // NOLINT
  Eigen::Vector4d a(r.n(), r.n(), r.n(), r.n()), b(r.n(), r.n(), r.n(), r.n());
  if (r.chance(0.5)) {a.normalize(); b.normalize();}
  if (r.chance(0.2)) {a(static_cast<int>(r.i(0, 3))) = 0;}
  if (r.chance(0.2)) {a *= r.lg(1e-6, 1e6);}
  const Eigen::Vector3d v = r.chance(0.02) ? Eigen::Vector3d::Zero() : vec(r), u = vec(r);
  vh::note(vh::fmt("a %.17g %.17g %.17g %.17g b %.17g %.17g %.17g %.17g v %.9g %.9g %.9g", a(0), a(1), a(2), a(3), b(0), b(1), b(2), b(3), v(0), v(1), v(2)));
  c.mark(vh::note_());
  const Eigen::Quaterniond qa = FromWXYZ(a), qb = FromWXYZ(b);
  VH_CHECK(qa.w() == a(0) && qa.x() == a(1) && qa.y() == a(2) && qa.z() == a(3), "from-wxyz", "differs");
  VH_CHECK(ToWXYZ(qa) == a, "wxyz-round-trip", "differs");
  const Eigen::Vector4d ab = product(a, b);
  const double tol = 1e-13 * (1 + a.norm() * b.norm());
  VH_CHECK((LeftMultiplicationMatrix(qa) * b - ab).norm() <= tol, "left-multiplication", "%s, expected %s", shownm(LeftMultiplicationMatrix(qa) * b).c_str(), shownm(ab).c_str());
  VH_CHECK((RightMultiplicationMatrix(qb) * a - ab).norm() <= tol, "right-multiplication", "%s, expected %s", shownm(RightMultiplicationMatrix(qb) * a).c_str(), shownm(ab).c_str());
  const Eigen::Vector3d cross(v(1) * u(2) - v(2) * u(1), v(2) * u(0) - v(0) * u(2), v(0) * u(1) - v(1) * u(0));
  VH_CHECK((Hat(v) * u - cross).norm() <= 1e-13 * (1e-300 + v.norm() * u.norm()), "hat", "differs");
  VH_CHECK(Hat(v) == -Hat(v).transpose(), "hat-skew", "differs");
  // Euler angles
  const double roll = r.u(-7, 7), pitch = r.chance(0.2) ? r.sign() * M_PI / 2 : r.u(-7, 7), yaw = r.chance(0.2) ? r.sign() * M_PI : r.u(-7, 7);
  const Eigen::Quaterniond e = RPYToQuaternionXYZ(roll, pitch, yaw);
  Eigen::Matrix3d X, Y, Z;
  X << 1, 0, 0, 0, cos(roll), -sin(roll), 0, sin(roll), cos(roll);
  Y << cos(pitch), 0, sin(pitch), 0, 1, 0, -sin(pitch), 0, cos(pitch);
  Z << cos(yaw), -sin(yaw), 0, sin(yaw), cos(yaw), 0, 0, 0, 1;
  VH_CHECK(std::abs(e.norm() - 1) < 1e-12, "rpy-unit", "norm %.17g", e.norm());
  VH_CHECK((matrix_of(e) - Z * Y * X).cwiseAbs().maxCoeff() < 1e-12, "rpy", "roll %.9g pitch %.9g yaw %.9g", roll, pitch, yaw);
  // derivative of the rotated point: q p q* is quadratic in q, so central differences are exact up to rounding
  Eigen::Vector4d q = a;
  const Eigen::Matrix<double, 3, 4> D = DRpDq(FromWXYZ(q), v);
  auto rotate = [&](const Eigen::Vector4d & w) {
      const Eigen::Vector4d p(0, v(0), v(1), v(2)), conj(w(0), -w(1), -w(2), -w(3));
      return Eigen::Vector3d(product(product(w, p), conj).tail(3));
    };
  const double h = std::max(1e-3, q.norm());
  for (int k = 0; k < 4; k++) {
    Eigen::Vector4d qp = q, qm = q;
    qp(k) += h;
    qm(k) -= h;
    const Eigen::Vector3d num = (rotate(qp) - rotate(qm)) / (2 * h);
    VH_CHECK((num - D.col(k)).norm() <= 1e-10 * (h + q.norm()) * v.norm(), "rotation-derivative", "column %d: %s, expected %s", k, shownm(D.col(k)).c_str(), shownm(num).c_str());
  }
  // exponential
  Eigen::Vector3d axis(r.n(), r.n(), r.n());
  if (r.chance(0.3)) {axis = Eigen::Vector3d::Unit(static_cast<int>(r.i(0, 2)));}
  axis.normalize();
  const double ang = r.of<double>({0., r.lg(1e-320, 1e-9), r.lg(1e-9, 1e-6), r.lg(1e-6, 1), r.u(0, 7), M_PI, 2 * M_PI, r.u(0, 100)});
  const Eigen::Quaterniond x = AngleAxisToQuaternion(axis * ang);
  const Eigen::Quaterniond w(std::cos(ang / 2), axis(0) * std::sin(ang / 2), axis(1) * std::sin(ang / 2), axis(2) * std::sin(ang / 2));
  VH_CHECK(std::abs(x.norm() - 1) < 1e-12, "exponential-unit", "angle %.9g: norm %.17g", ang, x.norm());
  VH_CHECK(rot_diff(x, w) < 1e-8 + 1e-15 * ang, "exponential", "angle %.9g: %.17g %.17g %.17g %.17g", ang, x.w(), x.x(), x.y(), x.z());
  if (ang > 1e-7 && ang < 1) {     // relative precision of the small part
    VH_CHECK((x.vec() - w.vec()).norm() <= 1e-9 * w.vec().norm(), "exponential-small", "angle %.9g", ang);
  }
  vh::count(ang < 1e-6 ? "tiny_rotations" : "rotations");
  c.nontrivial = true;
  c.desc = vh::note_();
}

void vh_case(vh::Case & c)
{
  const std::string & m = vh::opt().mode;
  if (m == "C08") {run_c08(c);
  } else if (m == "C09") {run_c09(c);
  } else {run_c10(c);}
}
}  // namespace monitor

void vh_case(vh::Case & c) {monitor::vh_case(c);}
