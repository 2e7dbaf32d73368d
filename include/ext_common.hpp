// Sweeps (workload) and the independent reference (oracle) for the extraction node.
#ifndef VERIF_EXT_COMMON_HPP_
#define VERIF_EXT_COMMON_HPP_
#include "vh.hpp"
#include <algorithm>
#include <array>
#include <map>
#include <numeric>
#include <string>
#include <tuple>
#include <vector>
#include "rosshim.hpp"

namespace ext
{
struct P {float x, y, z, intensity; uint16_t ring;};
using Sweep = std::vector<P>;
using XYZ = std::array<uint32_t, 3>;   // bit patterns, so that equality is exact

inline XYZ key(float x, float y, float z)
{
  XYZ k;
  std::memcpy(&k[0], &x, 4);
  std::memcpy(&k[1], &y, 4);
  std::memcpy(&k[2], &z, 4);
  return k;
}
inline XYZ key(const P & p) {return key(p.x, p.y, p.z);}

struct Params
{
  int padding = 5;
  double neighbor_deg = 2.0, dist_diff = 0.3, parallel = 0.02, edge = 0.05, surface = 0.05,
    min_range = 0.1, max_range = 100.0;
  int n_blocks = 6;
  std::string str() const
  {
    return vh::fmt("padding=%d neighbor_deg=%g dist_diff=%g parallel=%g edge=%g surface=%g range=[%g,%g] blocks=%d",
             padding, neighbor_deg, dist_diff, parallel, edge, surface, min_range, max_range, n_blocks);
  }
  void set() const
  {
    auto & p = shim::bus().params;
    p["convolution_padding"] = static_cast<int64_t>(padding);
    p["neighbor_degree_threshold"] = neighbor_deg;
    p["distance_diff_threshold"] = dist_diff;
    p["parallel_beam_min_range_ratio"] = parallel;
    p["edge_threshold"] = edge;
    p["surface_threshold"] = surface;
    p["min_range"] = min_range;
    p["max_range"] = max_range;
    p["n_blocks"] = static_cast<int64_t>(n_blocks);
  }
};

inline Params random_params(vh::Rng & r)
{
  Params p;
  if (r.chance(0.35)) {return p;}
  p.padding = static_cast<int>(r.chance(0.5) ? r.i(1, 4) : r.i(3, 12));
  p.neighbor_deg = r.of({0.3, 1.0, 2.0, 5.0, 20.0, 60.0, 179.0});
  p.dist_diff = r.lg(0.02, 3.0);
  p.parallel = r.lg(0.002, 0.3);
  p.edge = r.lg(1e-3, 5.0);
  p.surface = r.chance(0.5) ? p.edge : r.lg(1e-4, 5.0);
  p.min_range = r.lg(0.01, 3.0);
  p.max_range = p.min_range + r.lg(0.5, 200.0);
  p.n_blocks = static_cast<int>(r.i(1, 12));
  return p;
}

// One simulated room with boxes and poles: distance along a bearing.
struct World
{
  struct Seg {double x0, y0, x1, y1;};
  std::vector<Seg> segs;
  double noise = 0.01;
  explicit World(vh::Rng & r)
  {
    auto box = [&](double cx, double cy, double hx, double hy, double th) {
        const double c = std::cos(th), s = std::sin(th);
        const double px[4] = {-hx, hx, hx, -hx}, py[4] = {-hy, -hy, hy, hy};
        for (int k = 0; k < 4; k++) {
          const int m = (k + 1) % 4;
          segs.push_back({cx + c * px[k] - s * py[k], cy + s * px[k] + c * py[k],
              cx + c * px[m] - s * py[m], cy + s * px[m] + c * py[m]});
        }
      };
    const double size = r.lg(2.0, 60.0);
    box(r.u(-0.3, 0.3) * size, r.u(-0.3, 0.3) * size, size, size * r.u(0.4, 1.5), r.u(0, 3.14));
    const int n = static_cast<int>(r.i(0, 8));
    for (int k = 0; k < n; k++) {
      const double a = r.u(-M_PI, M_PI), d = size * r.u(0.1, 0.9), h = r.lg(0.03, 0.3) * size;
      box(d * std::cos(a), d * std::sin(a), h, h * r.u(0.2, 1.5), r.u(0, 3.14));
    }
    noise = r.of({0.0, 1e-3, 0.01, 0.05});
  }
  double range(double a) const
  {
    const double dx = std::cos(a), dy = std::sin(a);
    double best = 1e9;
    for (const auto & s : segs) {
      const double ex = s.x1 - s.x0, ey = s.y1 - s.y0;
      const double det = ex * dy - ey * dx;
      if (std::abs(det) < 1e-12) {continue;}
      const double t = (ex * s.y0 - ey * s.x0) / det;          // along the ray
      const double u = (dx * s.y0 - dy * s.x0) / det;          // along the segment
      if (t > 1e-3 && u >= 0 && u <= 1 && t < best) {best = t;}
    }
    return best > 1e8 ? 50.0 : best;
  }
};

inline float fz(float v) {return v == 0.f ? 0.f : v;}   // no negative zeros

// A ring of n points on a world; kind selects how hostile it is.
inline void add_ring(Sweep & sw, vh::Rng & r, uint16_t ring, int n, int kind, const World & w, const Params & prm)
{
  const double a0 = r.u(-M_PI, M_PI);
  const double span = r.chance(0.7) ? 2 * M_PI : r.u(0.05, 2 * M_PI);
  double walk = r.lg(0.5, 30.0);
  for (int k = 0; k < n; k++) {
    double a = a0 + span * (k + r.u(-0.2, 0.2)) / std::max(n, 1);
    double d = 1.0;
    switch (kind) {
      case 0:   // room
        d = w.range(a) + w.noise * r.n();
        break;
      case 1:   // white noise ranges
        d = r.u(0.05, 40.0);
        break;
      case 2:   // random walk with jumps
        walk += 0.02 * r.n() * walk;
        if (r.chance(0.05)) {walk = r.lg(0.02, 150.0);}
        d = walk;
        break;
      case 3:   // steps around the occlusion threshold
        d = 5.0 + (k / std::max<int>(1, static_cast<int>(r.i(1, 9)))) % 3 * prm.dist_diff * r.u(0.5, 2.0) +
          0.001 * r.n();
        break;
      case 4:   // around the range limits
        d = (r.chance(0.5) ? prm.min_range : prm.max_range) * (1 + 0.02 * r.n());
        break;
      case 5:   // sawtooth, beams nearly parallel to the surface
        d = 3.0 * std::pow(1.0 + prm.parallel * r.u(0.5, 1.8), k % 15);
        break;
      default:  // dropouts
        if (r.chance(0.3)) {continue;}
        d = w.range(a) + w.noise * r.n();
        break;
    }
    d = std::max(d, 0.005);
    P p;
    p.x = fz(static_cast<float>(d * std::cos(a)));
    p.y = fz(static_cast<float>(d * std::sin(a)));
    p.z = static_cast<float>(d * r.u(-0.2, 0.2)) + 1e-4f * static_cast<float>(sw.size());
    p.intensity = static_cast<float>(r.u(0, 255));
    p.ring = ring;
    sw.push_back(p);
  }
}

// Rings that are degenerate in one of many ways.
inline void add_bad_ring(Sweep & sw, vh::Rng & r, uint16_t ring, int n)
{
  const int kind = static_cast<int>(r.i(0, 11));
  for (int k = 0; k < n; k++) {
    P p{0, 0, static_cast<float>(k), 0, ring};
    switch (kind) {
      case 0: break;                                                        // all at the origin
      case 1: p.x = 1.f; break;                                             // all the same
      case 2: p.x = static_cast<float>(k - n / 2); break;                   // on the x axis, both sides
      case 3: p.y = static_cast<float>(k - n / 2); break;                   // on the y axis, both sides
      case 4: p.x = static_cast<float>(r.of({-1, 0, 1})); p.y = static_cast<float>(r.of({-1, 0, 1})); break;
      case 5: p.x = static_cast<float>(r.u(-1, 1) * 1e30); p.y = static_cast<float>(r.u(-1, 1) * 1e30); break;
      case 6: p.x = static_cast<float>(r.u(-1, 1) * 1e-40); p.y = static_cast<float>(r.u(-1, 1) * 1e-40); break;
      case 7: p.x = 3.e38f * static_cast<float>(r.u(-1, 1)); p.y = 1e-38f; break;
      case 8: p.x = k % 2 ? 0.f : static_cast<float>(r.u(-5, 5)); p.y = k % 2 ? 0.f : static_cast<float>(r.u(-5, 5)); break;
      case 9: p.x = static_cast<float>(r.lg(1e-30, 1e30) * r.sign()); p.y = static_cast<float>(r.lg(1e-30, 1e30) * r.sign()); break;
      case 10: p.x = 7.f * std::cos(0.1f * (k / 10)); p.y = 7.f * std::sin(0.1f * (k / 10)); break;  // ties
      default: p.x = std::nextafter(5.f, static_cast<float>(r.of({0, 10}))); p.y = r.of({0.f, 1e-7f, -1e-7f}); break;
    }
    p.x = fz(p.x);
    p.y = fz(p.y);
    sw.push_back(p);
  }
}

// ---------------------------------------------------------------- message layouts
inline sensor_msgs::msg::PointField field(const std::string & n, uint32_t off, uint8_t type, uint32_t count = 1)
{
  sensor_msgs::msg::PointField f;
  f.name = n; f.offset = off; f.datatype = type; f.count = count;
  return f;
}

// layout 0: the 32-byte layout of the project; others: what other drivers send
inline sensor_msgs::msg::PointCloud2 to_msg(
  const Sweep & s, int layout, int32_t sec, uint32_t nsec, const std::string & frame, uint32_t height = 1)
{
  using PF = sensor_msgs::msg::PointField;
  sensor_msgs::msg::PointCloud2 m;
  m.header.stamp.sec = sec; m.header.stamp.nanosec = nsec; m.header.frame_id = frame;
  uint32_t ox = 0, oy = 4, oz = 8, oi = 16, orr = 20, step = 32;
  bool intensity = true;
  switch (layout) {
    case 1: oi = 12; orr = 16; step = 18; break;                    // packed
    case 2: orr = 0; ox = 2; oy = 6; oz = 10; oi = 14; step = 18; break;  // ring first, unaligned
    case 3: oi = 12; orr = 16; step = 48; break;                    // with further fields
    case 4: intensity = false; orr = 12; step = 16; break;          // no intensity
    case 5: oz = 0; oy = 4; ox = 8; oi = 12; orr = 30; step = 34; break;  // permuted
    default: break;
  }
  m.fields.push_back(field("x", ox, PF::FLOAT32));
  m.fields.push_back(field("y", oy, PF::FLOAT32));
  m.fields.push_back(field("z", oz, PF::FLOAT32));
  if (intensity) {m.fields.push_back(field("intensity", oi, PF::FLOAT32));}
  m.fields.push_back(field("ring", orr, PF::UINT16));
  if (layout == 3) {
    m.fields.push_back(field("azimuth", 20, PF::FLOAT32));
    m.fields.push_back(field("distance", 24, PF::FLOAT32));
    m.fields.push_back(field("time_stamp", 32, PF::FLOAT64));
  }
  if (layout == 5) {std::reverse(m.fields.begin(), m.fields.end());}
  m.point_step = step;
  m.height = height;
  m.width = static_cast<uint32_t>(s.size() / height);
  const uint32_t extra = layout == 5 ? 6 : 0;      // padding at the end of a row
  m.row_step = m.width * step + extra;
  m.is_dense = true;
  m.data.assign(static_cast<size_t>(m.row_step) * height, 0xa5);
  for (size_t k = 0; k < static_cast<size_t>(m.width) * height; k++) {
    uint8_t * p = m.data.data() + (k / m.width) * m.row_step + (k % m.width) * step;
    std::memcpy(p + ox, &s[k].x, 4);
    std::memcpy(p + oy, &s[k].y, 4);
    std::memcpy(p + oz, &s[k].z, 4);
    if (intensity) {std::memcpy(p + oi, &s[k].intensity, 4);}
    std::memcpy(p + orr, &s[k].ring, 2);
  }
  return m;
}

inline int pick_height(vh::Rng & r, size_t n)
{
  if (n == 0) {return 1;}
  for (int t = 0; t < 3; t++) {
    const int h = static_cast<int>(r.i(1, 8));
    if (n % h == 0) {return h;}
  }
  return 1;
}

struct Seen {float x, y, z; uint8_t r, g, b;};

// Decodes a published cloud without PCL.
inline std::vector<Seen> decode(const sensor_msgs::msg::PointCloud2 & m, bool rgb, const char * what)
{
  int ox = -1, oy = -1, oz = -1, oc = -1;
  for (const auto & f : m.fields) {
    if (f.name == "x") {ox = f.offset;}
    if (f.name == "y") {oy = f.offset;}
    if (f.name == "z") {oz = f.offset;}
    if (f.name == "rgb" || f.name == "rgba") {oc = f.offset;}
  }
  VH_CHECK(ox >= 0 && oy >= 0 && oz >= 0 && (!rgb || oc >= 0), "output-fields", "%s lacks a field", what);
  VH_CHECK(m.data.size() == static_cast<size_t>(m.row_step) * m.height &&
    m.row_step >= m.width * m.point_step, "output-layout",
    "%s: data %zu, row_step %u, point_step %u, %u x %u", what, m.data.size(), m.row_step, m.point_step, m.width, m.height);
  std::vector<Seen> r;
  for (size_t k = 0; k < static_cast<size_t>(m.width) * m.height; k++) {
    const uint8_t * p = m.data.data() + (k / m.width) * m.row_step + (k % m.width) * m.point_step;
    Seen s{};
    std::memcpy(&s.x, p + ox, 4);
    std::memcpy(&s.y, p + oy, 4);
    std::memcpy(&s.z, p + oz, 4);
    if (rgb) {
      s.b = p[oc]; s.g = p[oc + 1]; s.r = p[oc + 2];
    }
    r.push_back(s);
  }
  return r;
}

// ---------------------------------------------------------------- reference
enum Cls {Default, Edge, EdgeNeighbor, Surface, SurfaceNeighbor};

struct RefRing
{
  bool processable = false;   // certainly processed
  bool too_short = false;     // certainly not processed
  bool certain = true;        // every decision has a margin, so the classes are unique
  std::vector<size_t> order;  // indices into the sweep, by azimuth
  std::vector<Cls> cls;       // by position in the ring, before rejection
  std::vector<char> occluded, out_of_range, parallel;
};

inline double angle_of(const P & p) {return std::atan2(static_cast<double>(p.y), static_cast<double>(p.x));}

// exact comparison of the directions of two points, as atan2 orders them: -1, 0, 1
inline int cmp_azimuth(const P & a, const P & b)
{
  auto half = [](const P & p) {   // (-pi,0) -> 0, [0,pi] -> 1 ; angle 0 and origin first in 1
      return p.y < 0 ? 0 : 1;
    };
  auto zero_dir = [](const P & p) {return p.y == 0 && p.x >= 0;};
  auto pi_dir = [](const P & p) {return p.y == 0 && p.x < 0;};
  const int ha = half(a), hb = half(b);
  if (ha != hb) {return ha < hb ? -1 : 1;}
  if (ha == 1) {
    if (zero_dir(a) || zero_dir(b)) {return zero_dir(a) && zero_dir(b) ? 0 : (zero_dir(a) ? -1 : 1);}
    if (pi_dir(a) || pi_dir(b)) {return pi_dir(a) && pi_dir(b) ? 0 : (pi_dir(b) ? -1 : 1);}
  }
  const double l = static_cast<double>(a.x) * b.y, m = static_cast<double>(a.y) * b.x;  // exact
  return l > m ? -1 : (l < m ? 1 : 0);
}

inline RefRing reference_ring(const Sweep & s, std::vector<size_t> idx, const Params & prm)
{
  RefRing R;
  std::stable_sort(idx.begin(), idx.end(), [&](size_t a, size_t b) {return cmp_azimuth(s[a], s[b]) < 0;});
  for (size_t k = 1; k < idx.size(); k++) {
    if (cmp_azimuth(s[idx[k - 1]], s[idx[k]]) == 0) {R.certain = false;}   // order among them is open
  }
  R.order = idx;
  const int n = static_cast<int>(idx.size());
  const int p = prm.padding;
  R.cls.assign(n, Default);
  R.occluded.assign(n, 0);
  R.out_of_range.assign(n, 0);
  R.parallel.assign(n, 0);
  if (n < 2 * p + 1 || n - 2 * p < prm.n_blocks) {R.too_short = true; return R;}
  // blocks
  std::vector<int> bound(prm.n_blocks + 1);
  for (int j = 0; j <= prm.n_blocks; j++) {
    bound[j] = static_cast<int>((static_cast<long>(p) * (prm.n_blocks - j) + static_cast<long>(n - p) * j) / prm.n_blocks);
  }
  std::vector<double> r(n), ang(n);
  for (int k = 0; k < n; k++) {
    const double x = s[idx[k]].x, y = s[idx[k]].y;
    r[k] = std::sqrt(x * x + y * y);
    ang[k] = std::atan2(y, x);
    if (x == 0 && y == 0) {R.certain = false;}
    if (!(r[k] < 1e15) || r[k] < 1e-15) {R.certain = false;}
  }
  bool zero = false;
  for (int k = 0; k < n; k++) {zero = zero || (s[idx[k]].x == 0 && s[idx[k]].y == 0);}
  R.processable = !zero && n - 2 * p >= 4 * prm.n_blocks;
  if (!R.certain) {return R;}
  const double thr = prm.neighbor_deg * M_PI / 180.;
  auto near = [&](double a, double b, double tol) {return std::abs(a - b) <= tol;};
  std::vector<char> link(n, 0);   // link[k]: k and k+1 are connected
  for (int k = 0; k + 1 < n; k++) {
    const P & a = s[idx[k]];
    const P & b = s[idx[k + 1]];
    const double cr = static_cast<double>(a.x) * b.y - static_cast<double>(a.y) * b.x;
    const double dt = static_cast<double>(a.x) * b.x + static_cast<double>(a.y) * b.y;
    const double d = std::abs(std::atan2(cr, dt));
    link[k] = d < thr;
    if (near(d, thr, 1e-6)) {R.certain = false;}   // acos near 0 is only good to 1e-8 or so
  }
  // curvature
  std::vector<double> c(n, 0.), root(n, 0.);
  double scale = 0;
  for (double v : r) {scale = std::max(scale, v);}
  const double eps = 1e-12 * scale * (2 * p + 1) + 1e-300;
  for (int k = p; k < n - p; k++) {
    double sum = 0;
    for (int m = k - p; m <= k + p; m++) {if (m != k) {sum += r[m] - r[k];}}
    root[k] = std::abs(sum);
    c[k] = sum * sum;
    if (near(root[k], std::sqrt(prm.edge), eps) || near(root[k], std::sqrt(prm.surface), eps)) {R.certain = false;}
  }
  for (int j = 0; j < prm.n_blocks; j++) {
    const int b = bound[j], e = bound[j + 1];
    if (e - b < 2) {R.certain = false; return R;}     // a block must hold two points
    std::vector<int> o(e - b);
    std::iota(o.begin(), o.end(), b);
    std::stable_sort(o.begin(), o.end(), [&](int x, int y) {return root[x] < root[y];});
    for (size_t k = 1; k < o.size(); k++) {
      if (near(root[o[k - 1]], root[o[k]], eps)) {R.certain = false;}
    }
    auto fill = [&](int i, Cls v) {
        for (int k = i; k - 1 >= b && i - (k - 1) <= p; k--) {
          if (!link[k - 1]) {break;}
          R.cls[k - 1] = v;
        }
        for (int k = i; k + 1 < e && k + 1 - i <= p; k++) {
          if (!link[k]) {break;}
          R.cls[k + 1] = v;
        }
      };
    for (auto it = o.rbegin(); it != o.rend(); ++it) {
      if (R.cls[*it] == Default && c[*it] >= prm.edge) {fill(*it, EdgeNeighbor); R.cls[*it] = Edge;}
    }
    for (int i : o) {
      if (R.cls[i] == Default && c[i] <= prm.surface) {fill(i, SurfaceNeighbor); R.cls[i] = Surface;}
    }
  }
  // rejections
  const double reps = 1e-9 * scale;
  for (int i = 0; i < n - p - 1; i++) {
    if (!link[i]) {continue;}
    if (near(r[i + 1], r[i] + prm.dist_diff, reps)) {R.certain = false;}
    if (r[i + 1] > r[i] + prm.dist_diff) {
      for (int k = i + 1; k <= i + 1 + p; k++) {
        R.occluded[k] = 1;
        if (k == i + 1 + p || !link[k]) {break;}
      }
    }
  }
  for (int i = n - 1; i >= p + 1; i--) {
    if (!link[i - 1]) {continue;}
    if (near(r[i - 1], r[i] + prm.dist_diff, reps)) {R.certain = false;}
    if (r[i - 1] > r[i] + prm.dist_diff) {
      for (int k = i - 1; k >= i - 1 - p; k--) {
        R.occluded[k] = 1;
        if (k == i - 1 - p || !link[k - 1]) {break;}
      }
    }
  }
  for (int i = 0; i < n; i++) {
    if (near(r[i], prm.min_range, 1e-12 * scale) || near(r[i], prm.max_range, 1e-12 * scale)) {R.certain = false;}
    R.out_of_range[i] = !(prm.min_range <= r[i] && r[i] <= prm.max_range);
  }
  for (int i = 1; i + 1 < n; i++) {
    const double q1 = std::abs(r[i - 1] - r[i]) / r[i], q2 = std::abs(r[i + 1] - r[i]) / r[i];
    if (near(q1, prm.parallel, 1e-6 * prm.parallel) || near(q2, prm.parallel, 1e-6 * prm.parallel)) {R.certain = false;}
    R.parallel[i] = q1 > prm.parallel && q2 > prm.parallel;
  }
  return R;
}

inline std::map<uint16_t, std::vector<size_t>> group(const Sweep & s)
{
  std::map<uint16_t, std::vector<size_t>> g;
  for (size_t k = 0; k < s.size(); k++) {g[s[k].ring].push_back(k);}
  return g;
}
}  // namespace ext
#endif  // VERIF_EXT_COMMON_HPP_
