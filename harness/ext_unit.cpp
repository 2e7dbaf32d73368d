// Building blocks of the extraction, each against its definition.
// modes: C02 / C03 (rules at exact thresholds), C04 (grouping and order), C05 (blocks, convolution), C06 (fill)
#include "vh.hpp"
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
#include "lidar_feature_extraction/algorithm.hpp"
#include "lidar_feature_extraction/convolution.hpp"
#include "lidar_feature_extraction/curvature.hpp"
#include "lidar_feature_extraction/fill.hpp"
#include "lidar_feature_extraction/index_range.hpp"
#include "lidar_feature_extraction/label.hpp"
#include "lidar_feature_extraction/math.hpp"
#include "lidar_feature_extraction/neighbor.hpp"
#include "lidar_feature_extraction/occlusion.hpp"
#include "lidar_feature_extraction/out_of_range.hpp"
#include "lidar_feature_extraction/parallel_beam.hpp"
#include "lidar_feature_extraction/range.hpp"
#include "lidar_feature_extraction/ring.hpp"
#include "ext_common.hpp"

namespace ext
{
// Which consecutive points are connected, as given.
class Links : public NeighborCheckBase
{
public:
  explicit Links(std::vector<char> l) : l_(std::move(l)) {}
  bool operator()(const int a, const int b) const override
  {
    if (a < 0 || b < 0 || a >= size() || b >= size()) {throw std::out_of_range("monitor: neighbour index");}
    if (a == b) {return true;}
    if (std::abs(a - b) != 1) {throw std::logic_error("monitor: not consecutive");}
    return l_[std::min(a, b)] != 0;
  }
  int size() const override {return static_cast<int>(l_.size());}

private:
  std::vector<char> l_;    // l[k]: k and k+1
};

static std::vector<char> random_links(vh::Rng & r, int n)
{
  std::vector<char> l(n, 1);
  const double p = r.of({0.0, 0.1, 0.3, 0.7});
  for (auto & x : l) {x = !r.chance(p);}
  return l;
}

static std::string show(const std::vector<PointLabel> & v)
{
  std::string s;
  for (auto l : v) {
    s += l == PointLabel::Default ? '.' : l == PointLabel::Edge ? 'E' : l == PointLabel::EdgeNeighbor ? 'e' :
      l == PointLabel::Surface ? 'S' : l == PointLabel::SurfaceNeighbor ? 's' : l == PointLabel::OutOfRange ? 'O' :
      l == PointLabel::Occluded ? 'X' : 'P';
  }
  return s;
}
static std::string show(const std::vector<char> & v)
{
  std::string s;
  for (auto l : v) {s += l ? '-' : '|';}
  return s;
}
template<typename T>
static std::string shown(const std::vector<T> & v)
{
  std::string s;
  for (auto x : v) {s += vh::fmt("%.9g ", static_cast<double>(x));}
  return s;
}

static std::vector<PointLabel> random_labels(vh::Rng & r, int n)
{
  std::vector<PointLabel> v(n, PointLabel::Default);
  for (auto & x : v) {
    if (r.chance(0.3)) {x = r.of({PointLabel::Edge, PointLabel::Surface, PointLabel::Occluded, PointLabel::EdgeNeighbor});}
  }
  return v;
}

// ------------------------------------------------------------------ C06
static std::vector<PointLabel> ref_left(std::vector<PointLabel> v, const std::vector<char> & l, int b, int e, PointLabel x)
{
  for (int i = b; i < e; i++) {
    v[i] = x;
    if (i + 1 < e && !l[i]) {break;}
  }
  return v;
}
static std::vector<PointLabel> ref_right(std::vector<PointLabel> v, const std::vector<char> & l, int b, int e, PointLabel x)
{
  for (int i = e; i > b; i--) {
    v[i] = x;
    if (i - 1 > b && !l[i - 1]) {break;}
  }
  return v;
}

static void run_c06(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const bool large = r.chance(0.01);
  const int n = static_cast<int>(large ? r.lg(40, 5000) : r.i(1, 40));
  if (large) {vh::count("large_containers");}
  const auto l = large && r.chance(0.5) ? std::vector<char>(n, 1) : random_links(r, n);
  const Links nb(l);
  const auto before = random_labels(r, n);
  const PointLabel x = r.of({PointLabel::Edge, PointLabel::EdgeNeighbor, PointLabel::Occluded, PointLabel::SurfaceNeighbor});
  auto v = before;
  const int what = static_cast<int>(r.i(0, 6));
  c.mark(show(l) + show(before));
  c.mark(static_cast<uint64_t>(what));
  if (what == 0) {
    const int e = static_cast<int>(r.i(1, n)), b = static_cast<int>(r.i(0, e - 1));
    vh::note(vh::fmt("left [%d,%d) links %s labels %s", b, e, show(l).c_str(), show(before).c_str()));
    FillFromLeft(v, nb, b, e, x);
    const auto w = ref_left(before, l, b, e, x);
    VH_CHECK(v == w, "fill-left", "got %s, expected %s", show(v).c_str(), show(w).c_str());
    vh::count("fill_left");
  } else if (what == 1) {
    const int e = static_cast<int>(r.i(0, n - 1)), b = static_cast<int>(r.i(-1, e - 1));
    vh::note(vh::fmt("right (%d,%d] links %s labels %s", b, e, show(l).c_str(), show(before).c_str()));
    FillFromRight(v, nb, b, e, x);
    const auto w = ref_right(before, l, b, e, x);
    VH_CHECK(v == w, "fill-right", "got %s, expected %s", show(v).c_str(), show(w).c_str());
    vh::count("fill_right");
  } else if (what == 2 || what == 3) {
    const int i = static_cast<int>(r.i(0, n - 1)), p = static_cast<int>(large ? r.i(0, n) : r.i(0, 12));
    vh::note(vh::fmt("around %d padding %d links %s labels %s", i, p, show(l).c_str(), show(before).c_str()));
    FillNeighbors(v, nb, i, p, x);
    const auto w = ref_left(ref_right(before, l, std::max(-1, i - p - 1), i, x), l, i, std::min(n, i + p + 1), x);
    VH_CHECK(v == w, "fill-around", "got %s, expected %s", show(v).c_str(), show(w).c_str());
    vh::count("fill_around");
  } else if (what == 4) {      // beyond the container: refused, nothing labelled
    int b = static_cast<int>(r.i(0, n - 1)), e = static_cast<int>(r.i(b + 1, n));
    const bool left = r.chance(0.5);
    const int by = static_cast<int>(r.i(1, 5));
    const bool low = r.chance(0.5);
    if (left) {if (low) {b = -by;} else {e = n + by;}
    } else {b--; e--; if (low) {b = -1 - by;} else {e = n - 1 + by;}}
    vh::note(vh::fmt("%s from %d to %d, size %d", left ? "left" : "right", b, e, n));
    bool ok = false;
    try {
      if (left) {FillFromLeft(v, nb, b, e, x);} else {FillFromRight(v, nb, b, e, x);}
    } catch (const std::invalid_argument &) {ok = true;}
    VH_CHECK(ok, "fill-beyond-accepted", "no exception");
    VH_CHECK(v == before, "fill-beyond-changed", "labels changed to %s", show(v).c_str());
    vh::count("fill_refused");
  } else {                      // the neighbour test itself
    const double a = r.u(-M_PI, M_PI), d1 = r.lg(1e-3, 1e3), d2 = r.lg(1e-3, 1e3);
    const double delta = r.chance(0.3) ? 0.0 : r.lg(1e-4, 3.0) * r.sign(), thr = r.lg(1e-3, 3.0);
    const pcl::PointXYZ p(d1 * std::cos(a), d1 * std::sin(a), r.u(-5, 5));
    // exactly the same direction: scaling a float by a power of two is exact
    const float f = std::ldexp(1.f, static_cast<int>(r.i(-5, 5)));
    const pcl::PointXYZ q = delta == 0.0 ? pcl::PointXYZ(p.x * f, p.y * f, r.u(-5, 5)) :
      pcl::PointXYZ(d2 * std::cos(a + delta), d2 * std::sin(a + delta), r.u(-5, 5));
    const double cr = static_cast<double>(p.x) * q.y - static_cast<double>(p.y) * q.x;
    const double dt = static_cast<double>(p.x) * q.x + static_cast<double>(p.y) * q.y;
    const double truth = std::abs(std::atan2(cr, dt));
    vh::note(vh::fmt("(%.9g,%.9g) (%.9g,%.9g) threshold %.9g", p.x, p.y, q.x, q.y, thr));
    const double got = CalcRadian(p.x, p.y, q.x, q.y);
    VH_CHECK(std::abs(got - truth) < 1e-7, "angle", "angle %.12g, expected %.12g", got, truth);
    if (std::abs(truth - thr) > 1e-6) {
      VH_CHECK(IsNeighborXY(p, q, thr) == (truth < thr), "neighbour", "angle %.9g", truth);
      VH_CHECK(IsNeighborXY(q, p, thr) == (truth < thr), "neighbour-symmetry", "angle %.9g", truth);
      pcl::PointCloud<pcl::PointXYZ>::Ptr cloud(new pcl::PointCloud<pcl::PointXYZ>());
      cloud->push_back(pcl::PointXYZ(1, 0, 0));
      cloud->push_back(q);
      cloud->push_back(pcl::PointXYZ(0, 1, 0));
      cloud->push_back(p);
      const MappedPoints<pcl::PointXYZ> ref(cloud, std::vector<int>{0, 3, 1, 2});
      const NeighborCheckXY<pcl::PointXYZ> check(ref, thr);
      VH_CHECK(check.size() == 4, "neighbour-size", "%d", check.size());
      VH_CHECK(check(1, 2) == (truth < thr), "neighbour-mapped", "angle %.9g", truth);
      const auto sliced = check.Slice(1, 3);
      VH_CHECK(sliced.size() == 2 && sliced(0, 1) == (truth < thr), "neighbour-sliced", "angle %.9g", truth);
      for (int bad : {-1, 4, 100}) {
        VH_CHECK(vh::throws([&] {check(bad, 0);}) && vh::throws([&] {check(0, bad);}), "neighbour-index", "index %d accepted", bad);
      }
      VH_CHECK(vh::throws([&] {sliced(0, 2);}), "neighbour-index", "index 2 of a slice of 2 accepted");
    }
    vh::count("neighbour_tests");
    c.mark(truth);
  }
  c.nontrivial = true;
  c.desc = vh::note_();
}

// ------------------------------------------------------------------ C05
static void run_c05(vh::Case & c)
{
  vh::Rng & r = c.rng;
  if (c.id % 4 == 0) {
    // blocks: whole rows of the (size, blocks, padding) space
    const int hi = static_cast<int>(r.chance(0.05) ? 1000000 : r.chance(0.1) ? r.i(100, 2500) : 150);
    const bool many = hi == 1000000 && r.chance(0.3);      // products of sizes and blocks beyond 32 bits
    const int padding = static_cast<int>((c.id / 4) % 13), nb = many ? static_cast<int>(r.lg(1000, 20000)) : 1 + static_cast<int>((c.id / 52) % 24);
    if (many) {vh::count("many_blocks");}
    for (int size = 0; size < hi; size += (size < 150 ? 1 : size < 2500 ? static_cast<int>(r.i(1, 40)) : static_cast<int>(r.i(1, size / 4)))) {
      if (size > 65536) {vh::count("large_tilings");}
      const int s = padding, e = size - padding;
      vh::note(vh::fmt("size %d blocks %d padding %d", size, nb, padding));
      bool thrown = false;
      try {
        const PaddedIndexRange ir(size, nb, padding);
        VH_CHECK(ir.NBlocks() == nb, "block-count", "%d", ir.NBlocks());
        VH_CHECK(ir.Begin(0) == s, "block-begin", "first block begins at %d", ir.Begin(0));
        VH_CHECK(ir.End(nb - 1) == e, "block-end", "last block ends at %d", ir.End(nb - 1));
        int lo = 1 << 30, up = 0;
        for (int j = 0; j < nb; j++) {
          const int len = ir.End(j) - ir.Begin(j);
          VH_CHECK(len > 0, "block-empty", "block %d is [%d,%d)", j, ir.Begin(j), ir.End(j));
          if (j > 0) {VH_CHECK(ir.Begin(j) == ir.End(j - 1), "block-gap", "block %d begins at %d, the one before ends at %d", j, ir.Begin(j), ir.End(j - 1));}
          lo = std::min(lo, len);
          up = std::max(up, len);
        }
        VH_CHECK(up - lo <= 1, "block-balance", "block lengths from %d to %d", lo, up);
        for (int j : {-1, nb, nb + 7}) {
          if (!r.chance(0.03)) {continue;}
          VH_CHECK(vh::throws([&] {ir.Begin(j);}) && vh::throws([&] {ir.End(j);}), "block-index", "block %d accepted", j);
        }
        vh::count("tilings");
      } catch (const std::invalid_argument &) {
        thrown = true;
        vh::count("tilings_refused");
      }
      VH_CHECK(thrown == (e - s < nb), "block-refusal", "%s", thrown ? "refused" : "accepted");
    }
    c.mark(static_cast<uint64_t>(padding * 100 + nb));
    c.mark(static_cast<uint64_t>(hi));
  } else {
    const bool large = r.chance(0.02);
    const int p = static_cast<int>(large && r.chance(0.5) ? r.i(1, 150) : r.i(1, 14)), n = static_cast<int>(large ? r.lg(100, p < 15 && r.chance(0.5) ? 80000 : 4000) : r.chance(0.2) ? r.i(0, 2 * p + 2) : r.i(1, 150));
    if (large) {vh::count("large_signals");}
    if (n > 5000) {vh::count("very_large_signals");}
    std::vector<double> in(n), w(2 * p + 1);
    const int kind = static_cast<int>(r.i(0, 2));   // integers are summed exactly in any order
    for (auto & x : in) {x = kind == 0 ? static_cast<double>(r.i(-100, 100)) : kind == 1 ? r.u(0.1, 100.) : r.lg(1e-3, 1e3) * r.sign();}
    for (auto & x : w) {x = kind == 0 ? static_cast<double>(r.i(-9, 9)) : r.u(-2, 2);}
    vh::note(vh::fmt("n %d padding %d in %s", n, p, large ? "(many)" : shown(in).c_str()));
    const bool small = n < 2 * p + 1;
    bool thrown = false;
    std::vector<double> out;
    try {out = Convolution1D(in, w);} catch (const std::invalid_argument &) {thrown = true;}
    VH_CHECK(thrown == small, "convolution-refusal", "%s", thrown ? "refused" : "accepted");
    bool thrown2 = false;
    std::vector<double> cur;
    try {cur = CalcCurvature(in, p);} catch (const std::invalid_argument &) {thrown2 = true;}
    VH_CHECK(thrown2 == small, "curvature-refusal", "%s", thrown2 ? "refused" : "accepted");
    if (!small) {
      VH_CHECK(out.size() == in.size() && cur.size() == in.size(), "convolution-size", "%zu, %zu", out.size(), cur.size());
      double big = 0;
      for (double x : in) {big = std::max(big, std::abs(x));}
      for (int i = 0; i < n; i++) {
        double want = 0, second = 0;
        if (i >= p && i < n - p) {
          for (int k = -p; k <= p; k++) {
            want += in[i + k] * w[k + p];
            second += in[i + k] - in[i];
          }
        }
        const double tol = kind == 0 ? 0 : 1e-12 * big * (2 * p + 1) * 3;
        VH_CHECK(std::abs(out[i] - want) <= tol, "convolution", "position %d: %.17g, expected %.17g", i, out[i], want);
        const double tol2 = kind == 0 ? 0 : 2 * std::abs(second) * tol + tol * tol;
        VH_CHECK(std::abs(cur[i] - second * second) <= tol2, "curvature", "position %d: %.17g, expected %.17g", i, cur[i], second * second);
      }
      vh::count("convolutions");
    } else {
      vh::count("convolutions_refused");
    }
    const auto mw = MakeWeight(p);
    VH_CHECK(static_cast<int>(mw.size()) == 2 * p + 1, "weight-size", "%zu", mw.size());
    for (int k = 0; k <= 2 * p; k++) {VH_CHECK(mw[k] == (k == p ? -2. * p : 1.), "weight", "weight[%d] = %g", k, mw[k]);}
    // distances of a sub-range
    if (n > 0) {
      pcl::PointCloud<pcl::PointXYZ>::Ptr cloud(new pcl::PointCloud<pcl::PointXYZ>());
      std::vector<int> idx(n);
      for (int i = 0; i < n; i++) {cloud->push_back(pcl::PointXYZ(r.u(-50, 50), r.u(-50, 50), r.u(-9, 9))); idx[i] = i;}
      r.shuffle(idx);
      const MappedPoints<pcl::PointXYZ> ref(cloud, idx);
      const Range<pcl::PointXYZ> range(ref);
      const int b = static_cast<int>(r.i(0, n)), e = static_cast<int>(r.i(b, n));
      const auto d = range(b, e);
      VH_CHECK(range.size() == n && static_cast<int>(d.size()) == e - b, "range-size", "%zu for [%d,%d)", d.size(), b, e);
      for (int i = b; i < e; i++) {
        const double x = cloud->at(idx[i]).x, y = cloud->at(idx[i]).y, want = std::sqrt(x * x + y * y);
        VH_CHECK(vh::close(d[i - b], want, 1e-14, 0) && vh::close(range(i), want, 1e-14, 0), "range", "position %d of [%d,%d): %.17g, expected %.17g",
          i, b, e, d[i - b], want);
      }
      vh::count("ranges");
    }
    c.mark(static_cast<uint64_t>(n * 100 + p));
    for (double x : in) {c.mark(x);}
  }
  c.nontrivial = true;
  c.desc = vh::note_().substr(0, 300);
}

// ------------------------------------------------------------------ C04
struct FloatPoint {float x, y; int ring;};
struct DoublePoint {double x, y; int ring;};

static void run_c04(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const int n = static_cast<int>(r.i(1, 120)), kind = static_cast<int>(r.i(0, 7));
  std::vector<ext::P> pts;
  ext::Params prm;
  if (kind < 5) {
    while (static_cast<int>(pts.size()) < n) {
      ext::add_bad_ring(pts, r, static_cast<uint16_t>(r.i(0, 5)), static_cast<int>(r.i(1, n)));
    }
  } else {
    const ext::World w(r);
    for (int k = 0; k < 3; k++) {ext::add_ring(pts, r, static_cast<uint16_t>(r.of({0, 7, 65535, 300})), static_cast<int>(r.i(1, n)), k, w, prm);}
  }
  r.shuffle(pts);
  std::string in;
  for (size_t k = 0; k < pts.size() && k < 60; k++) {in += vh::fmt("(%.9g,%.9g,r%u)", pts[k].x, pts[k].y, pts[k].ring);}
  vh::note(in);
  std::vector<FloatPoint> fp;
  std::vector<DoublePoint> dp;
  bool wide = false;
  for (const auto & p : pts) {
    fp.push_back({p.x, p.y, p.ring});
    dp.push_back({p.x, p.y, p.ring});
    for (float v : {p.x, p.y}) {wide = wide || (v != 0 && (std::abs(v) > 1e60 || std::abs(v) < 1e-60));}
  }
  const AHasSmallerPolarAngleThanB<FloatPoint> lt;
  const AHasSmallerPolarAngleThanB<DoublePoint> ltd;
  const int pairs = 300;
  for (int k = 0; k < pairs; k++) {
    const size_t a = r.i(0, pts.size() - 1), b = r.i(0, pts.size() - 1);
    const bool want = ext::cmp_azimuth(pts[a], pts[b]) < 0;
    VH_CHECK(lt(fp[a], fp[b]) == want, "azimuth-comparison", "(%.9g,%.9g) %s before (%.9g,%.9g)", pts[a].x, pts[a].y,
      want ? "is not ordered" : "is ordered", pts[b].x, pts[b].y);
    VH_CHECK(ltd(dp[a], dp[b]) == want, "azimuth-comparison", "(%.9g,%.9g) %s before (%.9g,%.9g) in double", pts[a].x, pts[a].y,
      want ? "is not ordered" : "is ordered", pts[b].x, pts[b].y);
    // the definition itself, where the arctangent can tell
    const double ta = ext::angle_of(pts[a]), tb = ext::angle_of(pts[b]);
    if (std::abs(ta - tb) > 1e-12) {VH_CHECK(lt(fp[a], fp[b]) == (ta < tb), "azimuth-arctangent", "(%.9g,%.9g) (%.9g,%.9g)", pts[a].x, pts[a].y, pts[b].x, pts[b].y);}
  }
  auto rings = ExtractAngleSortedRings(fp);
  std::map<int, std::vector<int>> want;
  for (size_t k = 0; k < pts.size(); k++) {want[pts[k].ring].push_back(static_cast<int>(k));}
  VH_CHECK(rings.size() == want.size(), "ring-count", "%zu rings, expected %zu", rings.size(), want.size());
  for (const auto & kv : rings) {
    VH_CHECK(want.count(kv.first), "ring-unknown", "ring %d", kv.first);
    std::vector<int> sorted = kv.second;
    std::sort(sorted.begin(), sorted.end());
    VH_CHECK(sorted == want[kv.first], "ring-partition", "ring %d holds %zu points, expected %zu", kv.first, sorted.size(), want[kv.first].size());
    for (size_t k = 1; k < kv.second.size(); k++) {
      VH_CHECK(ext::cmp_azimuth(pts[kv.second[k - 1]], pts[kv.second[k]]) <= 0, "ring-order", "ring %d position %zu: (%.9g,%.9g) before (%.9g,%.9g)",
        kv.first, k, pts[kv.second[k - 1]].x, pts[kv.second[k - 1]].y, pts[kv.second[k]].x, pts[kv.second[k]].y);
    }
  }
  const auto whole = rings;
  const int least = static_cast<int>(r.i(0, 12)) + (r.chance(0.5) ? static_cast<int>(want.begin()->second.size()) - 6 : 0);
  RemoveSparseRings(rings, least);
  for (const auto & kv : whole) {
    const bool keep = static_cast<int>(kv.second.size()) >= least;
    VH_CHECK((rings.count(kv.first) > 0) == keep, "sparse-rings", "ring %d with %zu points %s, minimum %d", kv.first, kv.second.size(),
      keep ? "was removed" : "was kept", least);
    if (keep) {VH_CHECK(rings.at(kv.first) == kv.second, "sparse-ring-changed", "ring %d", kv.first);}
  }
  for (const auto & kv : rings) {VH_CHECK(whole.count(kv.first), "sparse-ring-invented", "ring %d", kv.first);}
  vh::count("orders_checked", pairs);
  vh::count("rings_sorted", whole.size());
  c.nontrivial = pts.size() > 1;
  for (const auto & p : pts) {c.mark(static_cast<double>(p.x)); c.mark(static_cast<double>(p.y));}
  c.desc = in.substr(0, 300);
}

// ------------------------------------------------------------------ C02: selection at exact thresholds
static void run_c02(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const bool large = r.chance(0.005);
  const int n = static_cast<int>(large ? r.i(50, 2000) : r.i(2, 50)), p = static_cast<int>(large ? r.lg(1, 400) : r.i(1, 6));
  if (large) {vh::count("large_selections");}
  const auto l = random_links(r, n);
  const Links nb(l);
  std::vector<double> cur(n);
  std::vector<int> perm(n);
  for (int k = 0; k < n; k++) {perm[k] = k;}
  r.shuffle(perm);
  for (int k = 0; k < n; k++) {cur[k] = 0.5 * perm[k];}      // distinct, so the order is unique
  const double te = 0.5 * static_cast<double>(r.i(1, n)), ts = 0.5 * static_cast<double>(r.i(0, n));
  vh::note(vh::fmt("padding %d edge %g surface %g links %s curvature %s", p, te, ts, show(l).c_str(), shown(cur).c_str()));
  std::vector<PointLabel> got = InitLabels(n);
  VH_CHECK(static_cast<int>(got.size()) == n && std::count(got.begin(), got.end(), PointLabel::Default) == n, "init-labels", "not all default");
  auto pick = [&](std::vector<PointLabel> & v, bool edge) {
      std::vector<int> o(n);
      for (int k = 0; k < n; k++) {o[perm[k]] = k;}       // by ascending curvature
      if (edge) {std::reverse(o.begin(), o.end());}
      for (int i : o) {
        if (v[i] != PointLabel::Default || !(edge ? cur[i] >= te : cur[i] <= ts)) {continue;}
        const PointLabel x = edge ? PointLabel::EdgeNeighbor : PointLabel::SurfaceNeighbor;
        v = ref_left(ref_right(v, l, std::max(-1, i - p - 1), i, x), l, i, std::min(n, i + p + 1), x);
        v[i] = edge ? PointLabel::Edge : PointLabel::Surface;
      }
    };
  std::vector<PointLabel> want = got;
  const EdgeLabel edge(p, te);
  const SurfaceLabel surface(p, ts);
  edge.Assign(got, cur, nb);
  pick(want, true);
  VH_CHECK(got == want, "edge-rule", "got %s, expected %s", show(got).c_str(), show(want).c_str());
  surface.Assign(got, cur, nb);
  pick(want, false);
  VH_CHECK(got == want, "surface-rule", "got %s, expected %s", show(got).c_str(), show(want).c_str());
  // the order that the selection follows
  std::vector<double> v(n);
  for (auto & x : v) {x = static_cast<double>(r.i(-5, 5));}
  for (int k = 0; k < 2; k++) {
    const auto a = k ? Argsort(v.begin(), v.end()) : Argsort(v.cbegin(), v.cend());
    std::vector<int> sorted = a;
    std::sort(sorted.begin(), sorted.end());
    for (int i = 0; i < n; i++) {
      VH_CHECK(sorted[i] == i, "argsort-permutation", "%s", shown(a).c_str());
      if (i) {VH_CHECK(v[a[i - 1]] <= v[a[i]], "argsort-order", "%s of %s", shown(a).c_str(), shown(v).c_str());}
    }
  }
  vh::count("selections");
  vh::count("exact_threshold_hits", std::count(cur.begin(), cur.end(), te) + std::count(cur.begin(), cur.end(), ts));
  c.nontrivial = true;
  c.mark(vh::note_());
  c.desc = vh::note_().substr(0, 300);
}

// ------------------------------------------------------------------ C03: rejection at exact thresholds
static void run_c03(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const bool large = r.chance(0.005);
  const int p = static_cast<int>(large ? r.lg(1, 200) : r.i(1, 5)), n = static_cast<int>(large ? r.i(2 * p + 1, 2000) : r.i(2 * p + 1, 45));
  if (large) {vh::count("large_rings");}
  // points on the axes: distances are exact
  pcl::PointCloud<pcl::PointXYZ>::Ptr cloud(new pcl::PointCloud<pcl::PointXYZ>());
  std::vector<double> d(n);
  std::vector<int> dir(n);
  int at = 0;
  for (int k = 0; k < n; k++) {
    if (r.chance(0.15)) {at = (at + 1) % 4;}
    dir[k] = at;
    d[k] = 0.25 * static_cast<double>(r.chance(0.5) && k ? std::max<int64_t>(1, static_cast<int64_t>(d[k - 1] * 4) + r.i(-3, 3)) : r.i(1, 40));
    const float f = static_cast<float>(d[k]);
    cloud->push_back(pcl::PointXYZ(at == 0 ? f : at == 2 ? -f : 0.f, at == 1 ? f : at == 3 ? -f : 0.f, static_cast<float>(k)));
  }
  std::vector<int> idx(n);
  for (int k = 0; k < n; k++) {idx[k] = k;}
  const MappedPoints<pcl::PointXYZ> ref(cloud, idx);
  const NeighborCheckXY<pcl::PointXYZ> nb(ref, 0.1);
  const Range<pcl::PointXYZ> range(ref);
  std::vector<char> l(n, 0);
  for (int k = 0; k + 1 < n; k++) {l[k] = dir[k] == dir[k + 1];}
  const double jump = 0.25 * static_cast<double>(r.i(1, 4)), lo = 0.25 * static_cast<double>(r.i(1, 8)), hi = lo + 0.25 * static_cast<double>(r.i(0, 30));
  const double ratio = r.of({0.0625, 0.125, 0.25, 0.5});
  vh::note(vh::fmt("padding %d jump %g range [%g,%g] ratio %g links %s distances %s", p, jump, lo, hi, ratio, show(l).c_str(), shown(d).c_str()));
  const auto before = random_labels(r, n);
  auto occ = before, oor = before, par = before;
  LabelOccludedPoints<pcl::PointXYZ>(occ, nb, range, p, jump);
  LabelOutOfRange(oor, range, lo, hi);
  LabelParallelBeamPoints(par, range, ratio);
  auto wocc = before, woor = before, wpar = before;
  for (int i = 0; i < n - p - 1; i++) {
    if (l[i] && d[i + 1] > d[i] + jump) {wocc = ref_left(wocc, l, i + 1, i + p + 2, PointLabel::Occluded); vh::count("jumps_right");}
    if (l[i] && d[i + 1] == d[i] + jump) {vh::count("exact_threshold_hits");}
  }
  for (int i = n - 1; i >= p + 1; i--) {
    if (l[i - 1] && d[i - 1] > d[i] + jump) {wocc = ref_right(wocc, l, i - p - 2, i - 1, PointLabel::Occluded); vh::count("jumps_left");}
  }
  for (int i = 0; i < n; i++) {
    if (!(lo <= d[i] && d[i] <= hi)) {woor[i] = PointLabel::OutOfRange; vh::count("out_of_range");}
    if (d[i] == lo || d[i] == hi) {vh::count("exact_threshold_hits");}
    VH_CHECK(IsInInclusiveRange(d[i], lo, hi) == (lo <= d[i] && d[i] <= hi), "inclusive-range", "%g", d[i]);
    if (i > 0 && i + 1 < n) {
      // decide exactly: |difference| > ratio * distance, all multiples of 1/64
      const bool a = std::abs(d[i - 1] - d[i]) > ratio * d[i], b = std::abs(d[i + 1] - d[i]) > ratio * d[i];
      if (a && b) {wpar[i] = PointLabel::ParallelBeam; vh::count("parallel");}
    }
  }
  VH_CHECK(occ == wocc, "occlusion-rule", "before %s got %s, expected %s", show(before).c_str(), show(occ).c_str(), show(wocc).c_str());
  VH_CHECK(oor == woor, "range-rule", "before %s got %s, expected %s", show(before).c_str(), show(oor).c_str(), show(woor).c_str());
  VH_CHECK(par == wpar, "parallel-rule", "before %s got %s, expected %s", show(before).c_str(), show(par).c_str(), show(wpar).c_str());
  vh::count("rejections");
  c.nontrivial = true;
  c.mark(vh::note_());
  c.desc = vh::note_().substr(0, 300);
}

void vh_case(vh::Case & c)
{
  const std::string & m = vh::opt().mode;
  if (m == "C02") {run_c02(c);
  } else if (m == "C03") {run_c03(c);
  } else if (m == "C04") {run_c04(c);
  } else if (m == "C05") {run_c05(c);
  } else {run_c06(c);}
}
}  // namespace ext

void vh_case(vh::Case & c) {ext::vh_case(c);}
