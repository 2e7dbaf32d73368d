// The map loader and the generator of the viewer frame of the map.
#include "vh.hpp"
#include "reg_ref.hpp"
#include <filesystem>
#include <unistd.h>
#include <pcl/io/pcd_io.h>
#include <rclcpp/rclcpp.hpp>
#include <sensor_msgs/msg/point_cloud2.hpp>
#include "map_loader/src/map_loader.cpp"
#include "map_tf_generator/src/map_tf_generator_node.cpp"

namespace monitor
{
using Cloud2 = sensor_msgs::msg::PointCloud2;
using sensor_msgs::msg::PointField;

struct Field {std::string name; char type; int size; int count; int offset;};   // offset in the row
struct Table {std::vector<Field> fields; int step = 0; size_t n = 0; std::vector<uint8_t> data;};
static uint8_t datatype(const Field & f)
{
  if (f.type == 'F') {return f.size == 4 ? PointField::FLOAT32 : PointField::FLOAT64;}
  const int k = f.size == 1 ? 0 : f.size == 2 ? 2 : 4;
  return static_cast<uint8_t>(k + (f.type == 'I' ? 1 : 2));
}

// x, y, z (float32) and other fields in any order
static Table random_table(vh::Rng & r, bool ascii)
{
  Table t;
  std::vector<Field> f = {{"x", 'F', 4, 1, 0}, {"y", 'F', 4, 1, 0}, {"z", 'F', 4, 1, 0}};
  const std::vector<Field> extra = {{"intensity", 'F', 4, 1, 0}, {"curvature", 'F', 4, 1, 0}, {"ring", 'U', 2, 1, 0}, {"label", 'I', 4, 1, 0}, {"t", 'F', 8, 1, 0},
    {"flag", 'U', 1, 1, 0}, {"normal", 'F', 4, 3, 0}, {"id", 'U', 4, 1, 0}, {"delta", 'I', 2, 1, 0}};
  for (const auto & e : extra) {if (r.chance(0.25)) {f.push_back(e);}}
  if (r.chance(0.3)) {r.shuffle(f);}
  for (auto & e : f) {e.offset = t.step; t.step += e.size * e.count;}
  // PCL's own conversion (1.14 and before) copies x to z as one block when z is eight bytes after x, even with y elsewhere
  int at[3] = {0, 0, 0};
  for (const auto & e : f) {if (e.name.size() == 1 && e.name[0] >= 'x' && e.name[0] <= 'z') {at[e.name[0] - 'x'] = e.offset;}}
  if (at[2] == at[0] + 8 && at[1] < at[0]) {
    for (auto & e : f) {if (e.name == "x") {e.name = "y";} else if (e.name == "y") {e.name = "x";}}
  }
  t.fields = f;
  t.n = static_cast<size_t>(r.chance(0.05) ? 0 : r.chance(0.1) ? 1 : r.i(2, r.chance(0.05) ? 5000 : 60));
  t.data.resize(t.n * static_cast<size_t>(t.step));
  const bool holes = r.chance(0.2);
  const double size = r.lg(0.1, 1e5);
  const Eigen::Vector3d off = size * r.of<double>({0., 1., 100.}) * Eigen::Vector3d(r.n(), r.n(), r.n());
  for (size_t i = 0; i < t.n; i++) {
    for (const auto & e : f) {
      for (int k = 0; k < e.count; k++) {
        uint8_t * at = &t.data[i * static_cast<size_t>(t.step) + static_cast<size_t>(e.offset + k * e.size)];
        const double v = e.name == "x" || e.name == "y" || e.name == "z" ? off(e.name[0] - 'x') + size * r.n() : 100 * r.n();
        if (e.type == 'F' && e.size == 4) {
          float x = static_cast<float>(v);
          if (holes && r.chance(0.1)) {x = ascii ? NAN : r.of<float>({NAN, INFINITY, -INFINITY});}
          std::memcpy(at, &x, 4);
        } else if (e.type == 'F') {std::memcpy(at, &v, 8);
        } else {
          const uint64_t x = r.u64();
          std::memcpy(at, &x, static_cast<size_t>(e.size));
        }
      }
    }
  }
  return t;
}
static std::string shown(const Table & t)
{
  std::string s = vh::fmt("%zu points:", t.n);
  for (const auto & f : t.fields) {s += vh::fmt(" %s:%c%d*%d", f.name.c_str(), f.type, f.size, f.count);}
  return s;
}

// the file is written here and not by PCL
static void write_pcd(const std::string & path, const Table & t, int width, int height, const std::string & kind)
{
  std::ofstream o(path, std::ios::binary);
  o << "# .PCD v0.7 - Point Cloud Data file format\nVERSION 0.7\nFIELDS";
  for (const auto & f : t.fields) {o << ' ' << f.name;}
  o << "\nSIZE";
  for (const auto & f : t.fields) {o << ' ' << f.size;}
  o << "\nTYPE";
  for (const auto & f : t.fields) {o << ' ' << f.type;}
  o << "\nCOUNT";
  for (const auto & f : t.fields) {o << ' ' << f.count;}
  o << "\nWIDTH " << width << "\nHEIGHT " << height << "\nVIEWPOINT 0 0 0 1 0 0 0\nPOINTS " << t.n << "\nDATA " << kind << "\n";
  if (kind == "binary") {o.write(reinterpret_cast<const char *>(t.data.data()), static_cast<std::streamsize>(t.data.size())); return;}
  o.precision(17);
  for (size_t i = 0; i < t.n; i++) {
    bool first = true;
    for (const auto & f : t.fields) {
      for (int k = 0; k < f.count; k++) {
        const uint8_t * at = &t.data[i * static_cast<size_t>(t.step) + static_cast<size_t>(f.offset + k * f.size)];
        if (!first) {o << ' ';}
        first = false;
        if (f.type == 'F') {
          double v;
          if (f.size == 4) {float x; std::memcpy(&x, at, 4); v = x;} else {std::memcpy(&v, at, 8);}
          if (std::isnan(v)) {o << "nan";} else {o << v;}
        } else {
          int64_t v = 0;
          std::memcpy(&v, at, static_cast<size_t>(f.size));
          if (f.type == 'I') {const int shift = 64 - 8 * f.size; v = static_cast<int64_t>(static_cast<uint64_t>(v) << shift) >> shift;}
          o << v;
        }
      }
    }
    o << "\n";
  }
}

static std::shared_ptr<rclcpp::Node> create(const std::string & component, const std::map<std::string, std::string> & params)
{
  rclcpp::NodeOptions o;
  for (const auto & kv : params) {o.append_parameter_override(kv.first, kv.second);}
  VH_CHECK(shim::components().count(component) == 1, "component", "%s is not registered as a component", component.c_str());
  return shim::components().at(component)(o);
}

static void loader_case(vh::Case & c)
{
  vh::Rng & r = c.rng;
  shim::reset();
  if (r.chance(0.05)) {
    bool refused = false;
    std::map<std::string, std::string> p;
    if (r.chance(0.5)) {p["pcd_filename"] = "";}
    try {create("MapLoaderNode", p);} catch (const vh::Violation &) {throw;} catch (const std::exception &) {refused = true;}
    VH_CHECK(refused, "refuse", "the map loader started without a file name");
    VH_CHECK(shim::bus().total_published() == 0, "refuse", "a map was published without a file name");
    vh::count("refused");
    return;
  }
  const std::string kind = r.of<const char *>({"binary", "binary", "ascii", "pcl_compressed"});
  const Table t = random_table(r, kind == "ascii");
  int width = static_cast<int>(t.n), height = 1;
  if (t.n % 4 == 0 && t.n > 0 && r.chance(0.4)) {width = static_cast<int>(t.n) / 4; height = 4; vh::count("organised");}
  const std::string path = r.of<const char *>({"map.pcd", "./other map.pcd", "dir/map.pcd"});
  std::filesystem::create_directories("dir");
  vh::note(kind + " " + shown(t));
  c.desc = kind + " " + shown(t);
  c.mark(c.desc); c.mark(static_cast<uint64_t>(t.n ? t.data[0] : 0));
  if (kind == "pcl_compressed") {
    pcl::PCLPointCloud2 m;
    for (const auto & f : t.fields) {
      pcl::PCLPointField q;
      q.name = f.name; q.offset = static_cast<uint32_t>(f.offset); q.datatype = datatype(f); q.count = static_cast<uint32_t>(f.count);
      m.fields.push_back(q);
    }
    if (t.n == 0) {return;}
    m.width = static_cast<uint32_t>(width); m.height = static_cast<uint32_t>(height);
    m.point_step = static_cast<uint32_t>(t.step); m.row_step = m.point_step * m.width;
    m.data.assign(t.data.begin(), t.data.end());
    if (pcl::PCDWriter().writeBinaryCompressed(path, m) != 0) {fprintf(stderr, "cannot write\n"); exit(3);}
  } else {write_pcd(path, t, width, height, kind);}
  const auto node = create("MapLoaderNode", {{"pcd_filename", path}});
  const auto got = shim::bus().published<Cloud2>("map_topic");
  VH_CHECK(got.size() == 1 && shim::bus().total_published() == 1, "once", "%zu maps (%zu messages) were published", got.size(), shim::bus().total_published());
  VH_CHECK(shim::bus().pub_qos.at("map_topic").transient_local && shim::bus().pub_qos.at("map_topic").reliable, "latched", "a late subscriber gets no map");
  const Cloud2 & m = *got[0];
  VH_CHECK(m.header.frame_id == "map", "frame", "the frame is '%s'", m.header.frame_id.c_str());
  VH_CHECK(static_cast<size_t>(m.width) * m.height == t.n, "size", "%u x %u points, the file has %zu", m.width, m.height, t.n);
  VH_CHECK(t.n == 0 || (static_cast<int>(m.width) == width && static_cast<int>(m.height) == height), "size", "%u x %u points, the file has %d x %d", m.width, m.height, width, height);
  VH_CHECK(!m.is_bigendian, "layout", "the map is marked as big-endian");
  VH_CHECK(m.row_step == m.point_step * m.width && m.data.size() == static_cast<size_t>(m.row_step) * m.height, "layout", "point step %u, row step %u, %zu bytes for %u x %u points", m.point_step, m.row_step, m.data.size(), m.width, m.height);
  VH_CHECK(m.fields.size() == t.fields.size(), "fields", "%zu fields, the file has %zu", m.fields.size(), t.fields.size());
  for (size_t k = 0; k < t.fields.size(); k++) {
    const auto & f = t.fields[k];
    const auto & g = m.fields[k];
    VH_CHECK(g.name == f.name && g.datatype == datatype(f) && g.count == static_cast<uint32_t>(f.count), "fields", "field %zu is %s type %u count %u, the file has %s %c%d*%d", k, g.name.c_str(), g.datatype, g.count, f.name.c_str(), f.type, f.size, f.count);
    VH_CHECK(g.offset + static_cast<uint32_t>(f.size * f.count) <= m.point_step, "layout", "field %s does not fit in a point", f.name.c_str());
    for (size_t i = 0; i < t.n; i++) {
      const uint8_t * a = &m.data[i * m.point_step + g.offset];
      const uint8_t * b = &t.data[i * static_cast<size_t>(t.step) + static_cast<size_t>(f.offset)];
      for (int e = 0; e < f.count; e++) {
        if (f.type == 'F' && f.size == 4) {
          float x, y;
          std::memcpy(&x, a + e * 4, 4); std::memcpy(&y, b + e * 4, 4);
          if (std::isnan(x) && std::isnan(y)) {continue;}
        }
        VH_CHECK(std::memcmp(a + e * f.size, b + e * f.size, static_cast<size_t>(f.size)) == 0, "values", "point %zu field %s differs from the file", i, f.name.c_str());
      }
    }
  }
  bool holes = false;
  for (const auto & f : t.fields) {
    if (f.name.size() != 1 || f.name[0] < 'x' || f.name[0] > 'z') {continue;}
    for (size_t i = 0; i < t.n; i++) {float x; std::memcpy(&x, &t.data[i * static_cast<size_t>(t.step) + static_cast<size_t>(f.offset)], 4); holes = holes || !std::isfinite(x);}
  }
  if (holes) {
    VH_CHECK(!m.is_dense, "dense", "the map is marked as dense although it has points that are not finite");
    vh::count("files_with_holes");
  }
  vh::count("maps_loaded");
  vh::count("maps_" + kind);
  if (t.n == 0) {vh::count("maps_empty"); return;}
  vh::count("points_loaded", t.n);
  c.nontrivial = true;
  // the loaded map can be given to the node that places the viewer
  if (r.chance(0.3)) {
    shim::bus().clear_records();
    const auto viewer = create("MapTFGeneratorNode", {});
    shim::deliver("/pointcloud_map", m);
    size_t finite = 0;
    int at[3];
    for (const auto & f : t.fields) {if (f.name.size() == 1 && f.name[0] >= 'x' && f.name[0] <= 'z') {at[f.name[0] - 'x'] = f.offset;}}
    for (size_t i = 0; i < t.n; i++) {
      bool ok = true;
      for (const int o : at) {float x; std::memcpy(&x, &t.data[i * static_cast<size_t>(t.step) + static_cast<size_t>(o)], 4); ok = ok && std::isfinite(x);}
      finite += ok;
    }
    VH_CHECK(shim::bus().static_transforms.size() == (finite ? 1u : 0u), "chain", "%zu transforms for the loaded map with %zu finite points", shim::bus().static_transforms.size(), finite);
    vh::count("chained");
  }
}

static void viewer_case(vh::Case & c)
{
  vh::Rng & r = c.rng;
  shim::reset();
  std::map<std::string, std::string> params;
  std::string map = "map", viewer = "viewer";
  if (r.chance(0.5)) {map = params["map_frame"] = r.of<const char *>({"world", "map2", "a/b"});}
  if (r.chance(0.5)) {viewer = params["viewer_frame"] = r.of<const char *>({"camera", "view", "map"});}
  if (r.chance(0.1)) {shim::bus().now_ns = r.of<int64_t>({0LL, 5LL, 4000000000000000000LL});}
  const auto node = create("MapTFGeneratorNode", params);
  VH_CHECK(shim::bus().sub_qos.at("pointcloud_map").transient_local, "latched-map", "a map published before the start is not received");
  const int maps = static_cast<int>(r.i(1, 3));
  for (int m = 0; m < maps; m++) {
    Table t = random_table(r, false);
    if (r.chance(0.02)) {
      // very large maps far away: the mean of many equal points must not drift
      t = Table();
      t.fields = {{"x", 'F', 4, 1, 0}, {"y", 'F', 4, 1, 4}, {"z", 'F', 4, 1, 8}};
      t.step = 12; t.n = static_cast<size_t>(r.i(20000, 200000));
      t.data.resize(t.n * 12);
      const double off = r.lg(10, 1e6);
      for (size_t k = 0; k < 3 * t.n; k++) {const float v = static_cast<float>(off + (k % 7) * 0.25); std::memcpy(&t.data[k * 4], &v, 4);}
      vh::count("large_maps");
    }
    int at[3] = {0, 0, 0};
    for (const auto & f : t.fields) {if (f.name.size() == 1 && f.name[0] >= 'x' && f.name[0] <= 'z') {at[f.name[0] - 'x'] = f.offset;}}
    if (r.chance(0.05)) {      // no finite point at all
      for (size_t i = 0; i < t.n; i++) {const float v = r.of<float>({NAN, INFINITY}); std::memcpy(&t.data[i * static_cast<size_t>(t.step) + static_cast<size_t>(at[r.i(0, 2)])], &v, 4);}
    }
    // padding and rows
    const int pad = static_cast<int>(r.chance(0.3) ? r.i(1, 16) : 0);
    Cloud2 msg;
    msg.header.frame_id = r.of<const char *>({"map", "somewhere"});
    msg.header.stamp.sec = static_cast<int32_t>(r.i(0, 1000));
    msg.height = t.n % 4 == 0 && t.n > 0 && r.chance(0.4) ? 4 : 1;
    msg.width = static_cast<uint32_t>(t.n) / msg.height;
    msg.point_step = static_cast<uint32_t>(t.step + pad);
    msg.row_step = msg.point_step * msg.width;
    msg.data.resize(static_cast<size_t>(msg.row_step) * msg.height, 0xCD);
    for (const auto & f : t.fields) {
      PointField q;
      q.name = f.name; q.offset = static_cast<uint32_t>(f.offset); q.datatype = datatype(f); q.count = static_cast<uint32_t>(f.count);
      msg.fields.push_back(q);
    }
    for (size_t i = 0; i < t.n; i++) {std::memcpy(&msg.data[i * msg.point_step], &t.data[i * static_cast<size_t>(t.step)], static_cast<size_t>(t.step));}
    long double sum[3] = {0, 0, 0}, mag[3] = {0, 0, 0};
    size_t finite = 0;
    for (size_t i = 0; i < t.n; i++) {
      float x[3];
      for (int k = 0; k < 3; k++) {std::memcpy(&x[k], &t.data[i * static_cast<size_t>(t.step) + static_cast<size_t>(at[k])], 4);}
      if (!std::isfinite(x[0]) || !std::isfinite(x[1]) || !std::isfinite(x[2])) {continue;}
      finite++;
      for (int k = 0; k < 3; k++) {sum[k] += x[k]; mag[k] += std::abs(x[k]);}
    }
    msg.is_dense = finite == t.n;
    if (finite != t.n) {vh::count("maps_with_holes");}
    vh::note(shown(t) + vh::fmt(", %zu finite", finite));
    c.desc = shown(t) + " " + map + " " + viewer;
    c.mark(c.desc); c.mark(static_cast<double>(sum[0]));
    shim::bus().clear_records();
    VH_CHECK(shim::deliver("/pointcloud_map", msg) == 1, "subscription", "the map reaches no subscription");
    VH_CHECK(shim::bus().transforms.empty() && shim::bus().total_published() == 0, "extra", "something else was published");
    const auto & st = shim::bus().static_transforms;
    if (finite == 0) {
      VH_CHECK(st.empty(), "nothing-finite", "a transform was broadcast for a map without a finite point");
      vh::count("nothing_finite");
      continue;
    }
    VH_CHECK(st.size() == 1, "one-transform", "%zu transforms were broadcast", st.size());
    VH_CHECK(st[0].header.frame_id == map && st[0].child_frame_id == viewer, "frames", "the transform is from '%s' to '%s'", st[0].header.frame_id.c_str(), st[0].child_frame_id.c_str());
    const auto & q = st[0].transform.rotation;
    VH_CHECK(q.x == 0 && q.y == 0 && q.z == 0 && std::abs(q.w) == 1, "rotation", "the rotation is %g %g %g %g", q.w, q.x, q.y, q.z);
    const double got[3] = {st[0].transform.translation.x, st[0].transform.translation.y, st[0].transform.translation.z};
    for (int k = 0; k < 3; k++) {
      const double want = static_cast<double>(sum[k] / finite), tol = static_cast<double>(1e-9L * mag[k] / finite) + 1e-30;
      VH_CHECK(std::isfinite(got[k]), "finite", "translation %d is %g", k, got[k]);
      VH_CHECK(std::abs(got[k] - want) <= tol, "mean", "translation %d is %.12g, the mean of %zu finite points is %.12g", k, got[k], finite, want);
    }
    vh::count("means");
    c.nontrivial = true;
  }
}

void vh_case(vh::Case & c)
{
  const std::string dir = (vh::opt().scratch.empty() ? std::string("/tmp") : vh::opt().scratch) + "/mapio";
  std::filesystem::remove_all(dir);
  std::filesystem::create_directories(dir);
  if (chdir(dir.c_str()) != 0) {perror("chdir"); exit(3);}
  if (c.rng.chance(0.5)) {loader_case(c);} else {viewer_case(c);}
}
}  // namespace monitor

void vh_case(vh::Case & c) {monitor::vh_case(c);}
