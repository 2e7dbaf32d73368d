// Stand-in for the parts of ROS 2 that /repo uses (ROS 2 is not installed here).
// It is an in-process, single-threaded message bus with a virtual clock, which records everything a
// node publishes, broadcasts and logs, so that a monitor can judge the node from outside:
//   - a message is delivered by shim::deliver<T>(topic, msg)
//   - published messages are in shim::bus().published<T>(topic)
//   - rclcpp::spin(node) hands control to shim::bus().on_spin
//   - time is shim::bus().now_ns, and only the harness moves it
//   - timers fire when the harness calls shim::fire_timers()
// Semantics that matter to the properties follow rclcpp/tf2 (Humble): publishing on an invalid
// context is dropped, negative stamps throw, mixing time sources throws, tf lookups throw.
#ifndef VERIF_ROSSHIM_HPP_
#define VERIF_ROSSHIM_HPP_

#include <array>
#include <cassert>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <queue>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

// ------------------------------------------------------------------ messages
#define SHIM_PTRS(T) \
  using SharedPtr = std::shared_ptr<T>; \
  using ConstSharedPtr = std::shared_ptr<const T>; \
  using UniquePtr = std::unique_ptr<T>; \
  using ConstPtr = std::shared_ptr<const T>; \
  using Ptr = std::shared_ptr<T>;
#define SHIM_SET(T, name) \
  T & set__ ## name(const decltype(T::name) & v) {this->name = v; return *this;}

namespace builtin_interfaces
{
namespace msg
{
struct Time
{
  SHIM_PTRS(Time)
  int32_t sec = 0;
  uint32_t nanosec = 0;
  SHIM_SET(Time, sec) SHIM_SET(Time, nanosec)
  bool operator==(const Time & o) const {return sec == o.sec && nanosec == o.nanosec;}
  bool operator!=(const Time & o) const {return !(*this == o);}
  bool operator<(const Time & o) const {return sec != o.sec ? sec < o.sec : nanosec < o.nanosec;}
};
struct Duration
{
  SHIM_PTRS(Duration)
  int32_t sec = 0;
  uint32_t nanosec = 0;
};
}  // namespace msg
}  // namespace builtin_interfaces

namespace std_msgs
{
namespace msg
{
struct Header
{
  SHIM_PTRS(Header)
  builtin_interfaces::msg::Time stamp;
  std::string frame_id;
  SHIM_SET(Header, stamp) SHIM_SET(Header, frame_id)
  bool operator==(const Header & o) const {return stamp == o.stamp && frame_id == o.frame_id;}
};
struct ColorRGBA {SHIM_PTRS(ColorRGBA) float r = 0, g = 0, b = 0, a = 0;};
struct String {SHIM_PTRS(String) std::string data;};
}  // namespace msg
}  // namespace std_msgs

namespace geometry_msgs
{
namespace msg
{
#define SHIM_XYZ(T) \
  SHIM_PTRS(T) double x = 0, y = 0, z = 0; \
  SHIM_SET(T, x) SHIM_SET(T, y) SHIM_SET(T, z) \
  bool operator==(const T & o) const {return x == o.x && y == o.y && z == o.z;}
struct Point {SHIM_XYZ(Point)};
struct Vector3 {SHIM_XYZ(Vector3)};
struct Quaternion
{
  SHIM_PTRS(Quaternion)
  double x = 0, y = 0, z = 0, w = 1;
  SHIM_SET(Quaternion, x) SHIM_SET(Quaternion, y) SHIM_SET(Quaternion, z) SHIM_SET(Quaternion, w)
  bool operator==(const Quaternion & o) const {return x == o.x && y == o.y && z == o.z && w == o.w;}
};
struct Pose
{
  SHIM_PTRS(Pose)
  Point position; Quaternion orientation;
  SHIM_SET(Pose, position) SHIM_SET(Pose, orientation)
  bool operator==(const Pose & o) const {return position == o.position && orientation == o.orientation;}
};
struct Transform
{
  SHIM_PTRS(Transform)
  Vector3 translation; Quaternion rotation;
  SHIM_SET(Transform, translation) SHIM_SET(Transform, rotation)
};
struct Twist
{
  SHIM_PTRS(Twist)
  Vector3 linear; Vector3 angular;
  SHIM_SET(Twist, linear) SHIM_SET(Twist, angular)
};
struct PoseWithCovariance
{
  SHIM_PTRS(PoseWithCovariance)
  Pose pose; std::array<double, 36> covariance{};
  SHIM_SET(PoseWithCovariance, pose) SHIM_SET(PoseWithCovariance, covariance)
};
struct TwistWithCovariance
{
  SHIM_PTRS(TwistWithCovariance)
  Twist twist; std::array<double, 36> covariance{};
  SHIM_SET(TwistWithCovariance, twist) SHIM_SET(TwistWithCovariance, covariance)
};
#define SHIM_STAMPED(Name, Field, Type) \
  struct Name { \
    SHIM_PTRS(Name) std_msgs::msg::Header header; Type Field; \
    SHIM_SET(Name, header) SHIM_SET(Name, Field) \
  };
SHIM_STAMPED(PoseStamped, pose, Pose)
SHIM_STAMPED(PoseWithCovarianceStamped, pose, PoseWithCovariance)
SHIM_STAMPED(TwistStamped, twist, Twist)
SHIM_STAMPED(TwistWithCovarianceStamped, twist, TwistWithCovariance)
SHIM_STAMPED(PointStamped, point, Point)
SHIM_STAMPED(QuaternionStamped, quaternion, Quaternion)
SHIM_STAMPED(Vector3Stamped, vector, Vector3)
struct PoseArray
{
  SHIM_PTRS(PoseArray)
  std_msgs::msg::Header header; std::vector<Pose> poses;
};
struct TransformStamped
{
  SHIM_PTRS(TransformStamped)
  std_msgs::msg::Header header; std::string child_frame_id; Transform transform;
  SHIM_SET(TransformStamped, header) SHIM_SET(TransformStamped, child_frame_id)
  SHIM_SET(TransformStamped, transform)
};
}  // namespace msg
}  // namespace geometry_msgs

namespace nav_msgs
{
namespace msg
{
struct Odometry
{
  SHIM_PTRS(Odometry)
  std_msgs::msg::Header header; std::string child_frame_id;
  geometry_msgs::msg::PoseWithCovariance pose;
  geometry_msgs::msg::TwistWithCovariance twist;
  SHIM_SET(Odometry, header) SHIM_SET(Odometry, child_frame_id) SHIM_SET(Odometry, pose)
  SHIM_SET(Odometry, twist)
};
struct Path
{
  SHIM_PTRS(Path)
  std_msgs::msg::Header header; std::vector<geometry_msgs::msg::PoseStamped> poses;
};
}  // namespace msg
}  // namespace nav_msgs

namespace sensor_msgs
{
namespace msg
{
struct PointField
{
  SHIM_PTRS(PointField)
  static constexpr uint8_t INT8 = 1, UINT8 = 2, INT16 = 3, UINT16 = 4, INT32 = 5, UINT32 = 6,
    FLOAT32 = 7, FLOAT64 = 8;
  std::string name; uint32_t offset = 0; uint8_t datatype = 0; uint32_t count = 0;
  SHIM_SET(PointField, name) SHIM_SET(PointField, offset) SHIM_SET(PointField, datatype)
  SHIM_SET(PointField, count)
  bool operator==(const PointField & o) const
  {
    return name == o.name && offset == o.offset && datatype == o.datatype && count == o.count;
  }
};
struct PointCloud2
{
  SHIM_PTRS(PointCloud2)
  std_msgs::msg::Header header;
  uint32_t height = 0, width = 0;
  std::vector<PointField> fields;
  bool is_bigendian = false;
  uint32_t point_step = 0, row_step = 0;
  std::vector<uint8_t> data;
  bool is_dense = false;
};
}  // namespace msg
}  // namespace sensor_msgs

namespace visualization_msgs
{
namespace msg
{
struct Marker
{
  SHIM_PTRS(Marker)
  static constexpr int32_t ARROW = 0, CUBE = 1, SPHERE = 2, CYLINDER = 3, LINE_STRIP = 4,
    LINE_LIST = 5, CUBE_LIST = 6, SPHERE_LIST = 7, POINTS = 8;
  static constexpr int32_t ADD = 0, MODIFY = 0, DELETE = 2, DELETEALL = 3;
  std_msgs::msg::Header header; std::string ns; int32_t id = 0, type = 0, action = 0;
  geometry_msgs::msg::Pose pose; geometry_msgs::msg::Vector3 scale; std_msgs::msg::ColorRGBA color;
  builtin_interfaces::msg::Duration lifetime; bool frame_locked = false;
  std::vector<geometry_msgs::msg::Point> points; std::vector<std_msgs::msg::ColorRGBA> colors;
  std::string text;
};
}  // namespace msg
}  // namespace visualization_msgs

// ------------------------------------------------------------------ rclcpp: time
enum rcl_clock_type_t {RCL_CLOCK_UNINITIALIZED = 0, RCL_ROS_TIME, RCL_SYSTEM_TIME, RCL_STEADY_TIME};

namespace rclcpp
{
class Duration
{
public:
  Duration() = default;
  Duration(int32_t sec, uint32_t nanosec)
  : ns_(static_cast<int64_t>(sec) * 1000000000LL + nanosec) {}
  template<class Rep, class Period>
  Duration(const std::chrono::duration<Rep, Period> & d)  // NOLINT
  : ns_(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()) {}
  static Duration from_seconds(double s)
  {
    Duration d;
    d.ns_ = static_cast<int64_t>(s * 1e9);
    return d;
  }
  static Duration from_nanoseconds(int64_t ns) {Duration d; d.ns_ = ns; return d;}
  double seconds() const {return static_cast<double>(ns_) / 1e9;}
  int64_t nanoseconds() const {return ns_;}
  bool operator<(const Duration & o) const {return ns_ < o.ns_;}
  bool operator>(const Duration & o) const {return ns_ > o.ns_;}
  bool operator<=(const Duration & o) const {return ns_ <= o.ns_;}
  bool operator>=(const Duration & o) const {return ns_ >= o.ns_;}
  bool operator==(const Duration & o) const {return ns_ == o.ns_;}
  Duration operator+(const Duration & o) const {return from_nanoseconds(ns_ + o.ns_);}
  Duration operator-(const Duration & o) const {return from_nanoseconds(ns_ - o.ns_);}

private:
  int64_t ns_ = 0;
};

class Time
{
public:
  Time(int32_t seconds, uint32_t nanoseconds, rcl_clock_type_t type = RCL_SYSTEM_TIME)
  : ns_(static_cast<int64_t>(seconds) * 1000000000LL + nanoseconds), type_(type)
  {
    if (seconds < 0) {throw std::runtime_error("cannot store a negative time point in rclcpp::Time");}
  }
  explicit Time(int64_t nanoseconds = 0, rcl_clock_type_t type = RCL_SYSTEM_TIME)
  : ns_(nanoseconds), type_(type) {}
  Time(const builtin_interfaces::msg::Time & t, rcl_clock_type_t type = RCL_ROS_TIME)  // NOLINT
  : ns_(static_cast<int64_t>(t.sec) * 1000000000LL + t.nanosec), type_(type)
  {
    if (t.sec < 0) {throw std::runtime_error("cannot store a negative time point in rclcpp::Time");}
  }
  operator builtin_interfaces::msg::Time() const
  {
    builtin_interfaces::msg::Time t;
    int64_t s = ns_ / 1000000000LL, r = ns_ % 1000000000LL;
    if (r < 0) {s -= 1; r += 1000000000LL;}
    t.sec = static_cast<int32_t>(s);
    t.nanosec = static_cast<uint32_t>(r);
    return t;
  }
  double seconds() const {return static_cast<double>(ns_) / 1e9;}
  int64_t nanoseconds() const {return ns_;}
  rcl_clock_type_t get_clock_type() const {return type_;}
  Duration operator-(const Time & o) const {Check(o); return Duration::from_nanoseconds(ns_ - o.ns_);}
  Time operator+(const Duration & d) const {return Time(ns_ + d.nanoseconds(), type_);}
  Time operator-(const Duration & d) const {return Time(ns_ - d.nanoseconds(), type_);}
  bool operator<(const Time & o) const {Check(o); return ns_ < o.ns_;}
  bool operator>(const Time & o) const {Check(o); return ns_ > o.ns_;}
  bool operator<=(const Time & o) const {Check(o); return ns_ <= o.ns_;}
  bool operator>=(const Time & o) const {Check(o); return ns_ >= o.ns_;}
  bool operator==(const Time & o) const {Check(o); return ns_ == o.ns_;}
  bool operator!=(const Time & o) const {Check(o); return ns_ != o.ns_;}
  static Time max() {return Time(std::numeric_limits<int64_t>::max());}

private:
  void Check(const Time & o) const
  {
    if (type_ != o.type_) {
      throw std::runtime_error("can't subtract/compare times with different time sources");
    }
  }
  int64_t ns_;
  rcl_clock_type_t type_;
};
}  // namespace rclcpp

// ------------------------------------------------------------------ the recording bus
namespace rclcpp {class Node; class TimerBase;}

namespace shim
{
using ParamValue = std::variant<bool, int64_t, double, std::string>;

struct TopicKey
{
  std::string topic;
  std::type_index type;
  bool operator<(const TopicKey & o) const
  {
    return topic != o.topic ? topic < o.topic : type < o.type;
  }
};

inline std::string norm(const std::string & t) {return !t.empty() && t[0] == '/' ? t.substr(1) : t;}

struct QosInfo {bool reliable = true; bool transient_local = false; bool keep_all = false; size_t depth = 10;};

struct Event {std::string kind; std::string what;};

// One publisher or subscription of a node, with the name it asked for and the one it got
struct Endpoint
{
  bool pub; std::string node, asked, topic; std::type_index type; QosInfo qos;
};

struct Bus
{
  // state
  bool ok = true;
  int64_t now_ns = 1700000000LL * 1000000000LL;
  std::map<std::string, ParamValue> params;           // overrides for every node
  std::map<std::string, ParamValue> declared;         // what nodes declared, with the value used
  std::map<TopicKey, std::vector<std::function<void(std::shared_ptr<const void>)>>> subs;
  std::map<TopicKey, std::vector<std::shared_ptr<const void>>> pubs;
  std::map<TopicKey, std::vector<QosInfo>> subs_qos;  // in the order of subs
  std::map<std::string, QosInfo> pub_qos, sub_qos;
  std::vector<Endpoint> endpoints;
  std::function<std::string(const std::string &)> remap;      // topic names of the nodes created from now on
  std::function<void(const TopicKey &, std::shared_ptr<const void>, const QosInfo &)> on_publish;
  std::vector<std::shared_ptr<rclcpp::TimerBase>> timers;
  std::vector<geometry_msgs::msg::TransformStamped> transforms, static_transforms;
  std::map<std::pair<std::string, std::string>, geometry_msgs::msg::TransformStamped> tf;
  std::vector<std::pair<int, std::string>> log;       // level: 0 debug 1 info 2 warn 3 error
  std::vector<Event> order;                           // publications and broadcasts, in order
  size_t n_log[5] = {0, 0, 0, 0, 0};
  size_t dropped_after_shutdown = 0;
  size_t sleeps = 0;
  std::vector<std::string> bad_formats;               // log formats whose conversions have no argument
  std::function<void(std::shared_ptr<rclcpp::Node>)> on_spin;
  std::function<void()> on_executor_spin;

  template<typename M>
  std::vector<std::shared_ptr<const M>> published(const std::string & topic) const
  {
    std::vector<std::shared_ptr<const M>> r;
    const auto it = pubs.find(TopicKey{norm(topic), typeid(M)});
    if (it == pubs.end()) {return r;}
    for (const auto & p : it->second) {r.push_back(std::static_pointer_cast<const M>(p));}
    return r;
  }
  size_t total_published() const
  {
    size_t n = 0;
    for (const auto & kv : pubs) {n += kv.second.size();}
    return n;
  }
  void clear_records()
  {
    pubs.clear(); transforms.clear(); static_transforms.clear(); log.clear(); order.clear();
    for (auto & n : n_log) {n = 0;}
    dropped_after_shutdown = 0;
    sleeps = 0;
  }
};

inline Bus & bus() {static Bus b; return b;}
inline std::string remapped(const std::string & topic) {return norm(bus().remap ? bus().remap(topic) : topic);}
inline void reset() {bus() = Bus();}

// Delivers a message to every subscription of the topic. Each subscriber gets its own copy, as it
// would from the middleware, so that a callback that modifies its message cannot be seen elsewhere.
template<typename M>
size_t deliver(const std::string & topic, const M & msg)
{
  const auto it = bus().subs.find(TopicKey{norm(topic), typeid(M)});
  if (it == bus().subs.end()) {return 0;}
  const auto callbacks = it->second;
  for (const auto & f : callbacks) {f(std::make_shared<const M>(msg));}
  return callbacks.size();
}

template<typename M>
void subscribe(const std::string & node, const std::string & topic, const QosInfo & qos, std::function<void(std::shared_ptr<const void>)> f)
{
  const std::string name = remapped(topic);
  const TopicKey key{name, typeid(M)};
  bus().sub_qos[name] = qos;
  bus().endpoints.push_back({false, node, topic, name, typeid(M), qos});
  bus().subs[key].push_back(std::move(f));
  bus().subs_qos[key].push_back(qos);
}

inline void log_message(int level, const std::string & text)
{
  Bus & b = bus();
  b.n_log[level]++;
  if (b.log.size() < 2000) {b.log.emplace_back(level, text);}
}

inline std::string vformat(const char * fmt, ...)
{
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  return buf;
}
template<typename ... A>
std::string logfmt(const char * f, A... a)
{
  if constexpr (sizeof...(A) == 0) {
    // printf semantics: a conversion without an argument is undefined behaviour, recorded instead of executed
    std::string r;
    for (const char * p = f; *p; p++) {
      if (*p != '%') {r += *p; continue;}
      if (p[1] == '%') {r += '%'; p++; continue;}
      bus().bad_formats.push_back(f);
      return f;
    }
    return r;
  } else {
    return vformat(f, a...);
  }
}
template<typename ... A>
std::string logfmt(const std::string & f, A... a) {return logfmt(f.c_str(), a...);}
}  // namespace shim

// ------------------------------------------------------------------ rclcpp: the rest
#define RMW_QOS_POLICY_DEPTH_SYSTEM_DEFAULT 0
struct rmw_qos_profile_t {bool reliable = true; bool transient_local = false; bool keep_all = false; size_t depth = 10;};
static const rmw_qos_profile_t rmw_qos_profile_default{};
static const rmw_qos_profile_t rmw_qos_profile_sensor_data{false, false, false, 5};

namespace rclcpp
{
class Logger
{
public:
  explicit Logger(const std::string & n = "") : name_(n) {}
  const char * get_name() const {return name_.c_str();}
  Logger get_child(const std::string & c) const {return Logger(name_ + "." + c);}

private:
  std::string name_;
};
inline Logger get_logger(const std::string & n) {return Logger(n);}

struct KeepLast {explicit KeepLast(size_t d) : depth(d) {} size_t depth;};
struct KeepAll {};
class QoS
{
public:
  QoS(size_t depth) {p_.depth = depth;}  // NOLINT
  QoS(KeepLast k) {p_.depth = k.depth;}  // NOLINT
  QoS(KeepAll) {p_.keep_all = true;}  // NOLINT
  QoS & reliable() {p_.reliable = true; return *this;}
  QoS & best_effort() {p_.reliable = false; return *this;}
  QoS & durability_volatile() {p_.transient_local = false; return *this;}
  QoS & transient_local() {p_.transient_local = true; return *this;}
  QoS & keep_all() {p_.keep_all = true; return *this;}
  QoS & keep_last(size_t d) {p_.keep_all = false; p_.depth = d; return *this;}
  const rmw_qos_profile_t & get_rmw_qos_profile() const {return p_;}
  rmw_qos_profile_t & get_rmw_qos_profile() {return p_;}

protected:
  rmw_qos_profile_t p_;
};
class SensorDataQoS : public QoS {public: SensorDataQoS() : QoS(5) {p_.reliable = false;}};
class SystemDefaultsQoS : public QoS {public: SystemDefaultsQoS() : QoS(10) {}};
class ParametersQoS : public QoS {public: ParametersQoS() : QoS(1000) {}};

enum class CallbackGroupType {MutuallyExclusive, Reentrant};
class CallbackGroup
{
public:
  using SharedPtr = std::shared_ptr<CallbackGroup>;
  explicit CallbackGroup(CallbackGroupType t) : type_(t) {}
  CallbackGroupType type() const {return type_;}

private:
  CallbackGroupType type_;
};
struct SubscriptionOptions {CallbackGroup::SharedPtr callback_group; bool ignore_local_publications = false;};
struct PublisherOptions {CallbackGroup::SharedPtr callback_group;};

class Parameter
{
public:
  Parameter() = default;
  Parameter(const std::string & n, bool v) : name_(n), v_(v) {}
  Parameter(const std::string & n, int v) : name_(n), v_(static_cast<int64_t>(v)) {}
  Parameter(const std::string & n, int64_t v) : name_(n), v_(v) {}
  Parameter(const std::string & n, double v) : name_(n), v_(v) {}
  Parameter(const std::string & n, const std::string & v) : name_(n), v_(v) {}
  Parameter(const std::string & n, const char * v) : name_(n), v_(std::string(v)) {}
  const std::string & get_name() const {return name_;}
  const shim::ParamValue & value() const {return v_;}
  bool as_bool() const {return std::get<bool>(v_);}
  int64_t as_int() const {return std::get<int64_t>(v_);}
  double as_double() const {return std::get<double>(v_);}
  std::string as_string() const {return std::get<std::string>(v_);}

private:
  std::string name_;
  shim::ParamValue v_{false};
};

class NodeOptions
{
public:
  NodeOptions & parameter_overrides(const std::vector<Parameter> & p) {overrides_ = p; return *this;}
  const std::vector<Parameter> & parameter_overrides() const {return overrides_;}
  NodeOptions & append_parameter_override(const std::string & n, const shim::ParamValue & v)
  {
    std::visit([&](const auto & x) {overrides_.push_back(Parameter(n, x));}, v);
    return *this;
  }
  NodeOptions & use_intra_process_comms(bool) {return *this;}
  NodeOptions & automatically_declare_parameters_from_overrides(bool) {return *this;}

private:
  std::vector<Parameter> overrides_;
};

class Clock
{
public:
  using SharedPtr = std::shared_ptr<Clock>;
  explicit Clock(rcl_clock_type_t t = RCL_SYSTEM_TIME) : type_(t) {}
  Time now() const {return Time(shim::bus().now_ns, type_);}
  rcl_clock_type_t get_clock_type() const {return type_;}

private:
  rcl_clock_type_t type_;
};

class TimerBase
{
public:
  using SharedPtr = std::shared_ptr<TimerBase>;
  TimerBase(Duration period, std::function<void()> f) : period_(period), f_(std::move(f)) {}
  void execute_callback() {if (!canceled_) {f_();}}
  void cancel() {canceled_ = true;}
  void reset() {canceled_ = false;}
  bool is_canceled() const {return canceled_;}
  Duration period() const {return period_;}

private:
  Duration period_;
  std::function<void()> f_;
  bool canceled_ = false;
};

template<typename M>
class Publisher
{
public:
  using SharedPtr = std::shared_ptr<Publisher<M>>;
  using ConstSharedPtr = std::shared_ptr<const Publisher<M>>;
  explicit Publisher(const std::string & topic, const shim::QosInfo & qos = shim::QosInfo()) : topic_(shim::norm(topic)), qos_(qos) {}
  void publish(const M & m) const
  {
    if (!shim::bus().ok) {shim::bus().dropped_after_shutdown++; return;}
    auto copy = std::make_shared<const M>(m);
    shim::bus().pubs[shim::TopicKey{topic_, typeid(M)}].push_back(copy);
    shim::bus().order.push_back(shim::Event{"pub", topic_});
    if (shim::bus().on_publish) {shim::bus().on_publish(shim::TopicKey{topic_, typeid(M)}, copy, qos_);}
  }
  void publish(std::unique_ptr<M> m) const {publish(*m);}
  std::string get_topic_name() const {return "/" + topic_;}
  size_t get_subscription_count() const {return 0;}

private:
  std::string topic_;
  shim::QosInfo qos_;
};

template<typename M>
class Subscription
{
public:
  using SharedPtr = std::shared_ptr<Subscription<M>>;
  using ConstSharedPtr = std::shared_ptr<const Subscription<M>>;
};

namespace detail
{
template<typename M, typename F>
std::function<void(std::shared_ptr<const void>)> wrap(F f)
{
  return [f = std::move(f)](std::shared_ptr<const void> p) mutable {
           auto c = std::static_pointer_cast<const M>(p);
           if constexpr (std::is_invocable_v<F &, std::shared_ptr<const M>>) {
             f(c);
           } else if constexpr (std::is_invocable_v<F &, const M &>) {
             f(*c);
           } else if constexpr (std::is_invocable_v<F &, std::shared_ptr<M>>) {
             f(std::make_shared<M>(*c));
           } else {
             f(std::make_unique<M>(*c));
           }
         };
}
}  // namespace detail

inline bool ok() {return shim::bus().ok;}
template<typename ... A>
void init(A && ...) {shim::bus().ok = true;}
inline bool shutdown() {shim::bus().ok = false; return true;}
template<typename Rep, typename Period>
bool sleep_for(const std::chrono::duration<Rep, Period> &) {shim::bus().sleeps++; return ok();}

class Node : public std::enable_shared_from_this<Node>
{
public:
  using SharedPtr = std::shared_ptr<Node>;
  explicit Node(const std::string & name, const NodeOptions & o = NodeOptions())
  : name_(name), clock_(std::make_shared<Clock>(RCL_ROS_TIME))
  {
    for (const auto & p : o.parameter_overrides()) {overrides_[p.get_name()] = p.value();}
  }
  Node(const std::string & name, const std::string &, const NodeOptions & o = NodeOptions())
  : Node(name, o) {}
  virtual ~Node() {}

  const char * get_name() const {return name_.c_str();}
  Logger get_logger() const {return Logger(name_);}
  Clock::SharedPtr get_clock() const {return clock_;}
  Time now() const {return clock_->now();}

  template<typename M, typename A = std::allocator<void>>
  typename Publisher<M>::SharedPtr create_publisher(
    const std::string & topic, const QoS & qos, const PublisherOptions & = PublisherOptions())
  {
    const auto & q = qos.get_rmw_qos_profile();
    const shim::QosInfo info{q.reliable, q.transient_local, q.keep_all, q.depth};
    const std::string name = shim::remapped(topic);
    shim::bus().pub_qos[name] = info;
    shim::bus().endpoints.push_back({true, name_, topic, name, typeid(M), info});
    return std::make_shared<Publisher<M>>(name, info);
  }

  template<typename M, typename F>
  typename Subscription<M>::SharedPtr create_subscription(
    const std::string & topic, const QoS & qos, F f,
    const SubscriptionOptions & = SubscriptionOptions())
  {
    const auto & q = qos.get_rmw_qos_profile();
    shim::subscribe<M>(name_, topic, {q.reliable, q.transient_local, q.keep_all, q.depth}, detail::wrap<M>(std::move(f)));
    return std::make_shared<Subscription<M>>();
  }

  template<typename F>
  TimerBase::SharedPtr create_timer(const Duration & d, F f)
  {
    auto t = std::make_shared<TimerBase>(d, std::function<void()>(std::move(f)));
    shim::bus().timers.push_back(t);
    return t;
  }
  template<typename Rep, typename Period, typename F>
  TimerBase::SharedPtr create_wall_timer(const std::chrono::duration<Rep, Period> & d, F f)
  {
    return create_timer(Duration(d), std::move(f));
  }

  CallbackGroup::SharedPtr create_callback_group(CallbackGroupType t, bool = true)
  {
    auto g = std::make_shared<CallbackGroup>(t);
    groups_.push_back(g);
    return g;
  }

  template<typename T>
  T declare_parameter(const std::string & name, const T & def)
  {
    T v = Lookup<T>(name, def);
    Record(name, v);
    return v;
  }
  std::string declare_parameter(const std::string & name, const char * def)
  {
    return declare_parameter<std::string>(name, std::string(def));
  }
  template<typename T>
  T declare_parameter(const std::string & name)
  {
    const shim::ParamValue * o = Find(name);
    if (!o) {throw std::runtime_error("parameter '" + name + "' is not set");}
    T v = Lookup<T>(name, T());
    Record(name, v);
    return v;
  }
  bool has_parameter(const std::string & n) const {return values_.count(n) > 0;}
  Parameter get_parameter(const std::string & n) const
  {
    Parameter p;
    std::visit([&](const auto & x) {p = Parameter(n, x);}, values_.at(n));
    return p;
  }
  template<typename T>
  bool get_parameter(const std::string & n, T & out) const
  {
    if (!has_parameter(n)) {return false;}
    out = Convert<T>(n, values_.at(n));
    return true;
  }

private:
  const shim::ParamValue * Find(const std::string & n) const
  {
    auto it = overrides_.find(n);
    if (it != overrides_.end()) {return &it->second;}
    auto jt = shim::bus().params.find(n);
    if (jt != shim::bus().params.end()) {return &jt->second;}
    return nullptr;
  }
  template<typename T>
  static T Convert(const std::string & name, const shim::ParamValue & v)
  {
    // as in rclcpp: an override of another type is an error, not converted
    if constexpr (std::is_same_v<T, bool>) {
      if (auto p = std::get_if<bool>(&v)) {return *p;}
    } else if constexpr (std::is_integral_v<T>) {
      if (auto p = std::get_if<int64_t>(&v)) {return static_cast<T>(*p);}
    } else if constexpr (std::is_floating_point_v<T>) {
      if (auto p = std::get_if<double>(&v)) {return static_cast<T>(*p);}
    } else {
      if (auto p = std::get_if<std::string>(&v)) {return T(*p);}
    }
    throw std::runtime_error("parameter '" + name + "' has invalid type");
  }
  template<typename T>
  T Lookup(const std::string & name, const T & def) const
  {
    if (values_.count(name)) {throw std::runtime_error("parameter '" + name + "' already declared");}
    const shim::ParamValue * o = Find(name);
    return o ? Convert<T>(name, *o) : def;
  }
  template<typename T>
  void Record(const std::string & n, const T & v)
  {
    shim::ParamValue pv;
    if constexpr (std::is_same_v<T, bool>) {pv = v;
    } else if constexpr (std::is_integral_v<T>) {pv = static_cast<int64_t>(v);
    } else if constexpr (std::is_floating_point_v<T>) {pv = static_cast<double>(v);
    } else {pv = std::string(v);}
    values_[n] = pv;
    shim::bus().declared[n] = pv;
  }

  std::string name_;
  Clock::SharedPtr clock_;
  std::map<std::string, shim::ParamValue> overrides_, values_;
  std::vector<CallbackGroup::SharedPtr> groups_;
};

template<typename NodeT, typename F>
TimerBase::SharedPtr create_timer(
  NodeT, Clock::SharedPtr, const Duration & period, F f, CallbackGroup::SharedPtr = nullptr)
{
  auto t = std::make_shared<TimerBase>(period, std::function<void()>(std::move(f)));
  shim::bus().timers.push_back(t);
  return t;
}

inline void spin(std::shared_ptr<Node> node) {if (shim::bus().on_spin) {shim::bus().on_spin(node);}}
inline void spin_some(std::shared_ptr<Node>) {}

class ExecutorOptions {};
class Executor
{
public:
  explicit Executor(const ExecutorOptions & = ExecutorOptions()) {}
  virtual ~Executor() {}
  void add_node(std::shared_ptr<Node> n) {nodes_.push_back(n);}
  void remove_node(std::shared_ptr<Node>) {}
  void spin()
  {
    if (shim::bus().on_executor_spin) {
      shim::bus().on_executor_spin();
    } else if (shim::bus().on_spin) {
      shim::bus().on_spin(nodes_.empty() ? nullptr : nodes_.front());
    }
  }
  void spin_some() {}
  void cancel() {}

private:
  std::vector<std::shared_ptr<Node>> nodes_;
};
namespace executors
{
class MultiThreadedExecutor : public Executor {public: using Executor::Executor;};
class SingleThreadedExecutor : public Executor {public: using Executor::Executor;};
}  // namespace executors

class Rate
{
public:
  explicit Rate(double) {}
  bool sleep() {shim::bus().sleeps++; return true;}
};
using WallRate = Rate;
}  // namespace rclcpp

namespace shim
{
inline size_t fire_timers()
{
  const auto timers = bus().timers;
  for (const auto & t : timers) {t->execute_callback();}
  return timers.size();
}
using Factory = std::function<std::shared_ptr<rclcpp::Node>(const rclcpp::NodeOptions &)>;
inline std::map<std::string, Factory> & components()
{
  static std::map<std::string, Factory> c;
  return c;
}
inline bool register_component(const std::string & n, Factory f) {components()[n] = f; return true;}
}  // namespace shim

#define SHIM_CAT2(a, b) a ## b
#define SHIM_CAT(a, b) SHIM_CAT2(a, b)
#define RCLCPP_COMPONENTS_REGISTER_NODE(Class) \
  static const bool SHIM_CAT(shim_component_, __LINE__) = ::shim::register_component( \
    #Class, [](const rclcpp::NodeOptions & o) -> std::shared_ptr<rclcpp::Node> { \
      return std::make_shared<Class>(o);});

#define SHIM_LOG(level, logger, ...) \
  do {(void)(logger); ::shim::log_message(level, ::shim::logfmt(__VA_ARGS__));} while (0)
#define RCLCPP_DEBUG(logger, ...) SHIM_LOG(0, logger, __VA_ARGS__)
#define RCLCPP_INFO(logger, ...) SHIM_LOG(1, logger, __VA_ARGS__)
#define RCLCPP_WARN(logger, ...) SHIM_LOG(2, logger, __VA_ARGS__)
#define RCLCPP_ERROR(logger, ...) SHIM_LOG(3, logger, __VA_ARGS__)
#define RCLCPP_FATAL(logger, ...) SHIM_LOG(4, logger, __VA_ARGS__)
#define SHIM_LOG_STREAM(level, logger, args) \
  do {(void)(logger); std::stringstream ss_; ss_ << args; ::shim::log_message(level, ss_.str());} while (0)
#define RCLCPP_DEBUG_STREAM(logger, args) SHIM_LOG_STREAM(0, logger, args)
#define RCLCPP_INFO_STREAM(logger, args) SHIM_LOG_STREAM(1, logger, args)
#define RCLCPP_WARN_STREAM(logger, args) SHIM_LOG_STREAM(2, logger, args)
#define RCLCPP_ERROR_STREAM(logger, args) SHIM_LOG_STREAM(3, logger, args)
#define RCLCPP_DEBUG_THROTTLE(logger, clock, ms, ...) SHIM_LOG(0, logger, __VA_ARGS__)
#define RCLCPP_INFO_THROTTLE(logger, clock, ms, ...) SHIM_LOG(1, logger, __VA_ARGS__)
#define RCLCPP_WARN_THROTTLE(logger, clock, ms, ...) \
  do {(void)(clock).now(); (void)(ms); SHIM_LOG(2, logger, __VA_ARGS__);} while (0)
#define RCLCPP_ERROR_THROTTLE(logger, clock, ms, ...) SHIM_LOG(3, logger, __VA_ARGS__)
#define RCLCPP_INFO_ONCE(logger, ...) SHIM_LOG(1, logger, __VA_ARGS__)
#define RCLCPP_WARN_ONCE(logger, ...) SHIM_LOG(2, logger, __VA_ARGS__)

#endif  // VERIF_ROSSHIM_HPP_
