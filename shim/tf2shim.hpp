// Stand-in for tf2, tf2_ros, tf2_eigen and tf2_geometry_msgs (formulas follow the Humble sources).
#ifndef VERIF_TF2SHIM_HPP_
#define VERIF_TF2SHIM_HPP_
#include "rosshim.hpp"
#include <Eigen/Core>
#include <Eigen/Geometry>

namespace tf2
{
using TimePoint = std::chrono::time_point<std::chrono::system_clock, std::chrono::nanoseconds>;
using Duration = std::chrono::nanoseconds;
static const TimePoint TimePointZero = TimePoint(std::chrono::nanoseconds(0));

class TransformException : public std::runtime_error
{
public:
  explicit TransformException(const std::string & s) : std::runtime_error(s) {}
};
class LookupException : public TransformException {using TransformException::TransformException;};
class ConnectivityException : public TransformException {using TransformException::TransformException;};
class ExtrapolationException : public TransformException {using TransformException::TransformException;};
class InvalidArgumentException : public TransformException {using TransformException::TransformException;};

class Vector3
{
public:
  Vector3() : v_{0, 0, 0} {}
  Vector3(double x, double y, double z) : v_{x, y, z} {}
  double x() const {return v_[0];}
  double y() const {return v_[1];}
  double z() const {return v_[2];}
  double getX() const {return v_[0];}
  double getY() const {return v_[1];}
  double getZ() const {return v_[2];}

private:
  double v_[3];
};

class Quaternion
{
public:
  Quaternion() : v_{0, 0, 0, 1} {}
  Quaternion(double x, double y, double z, double w) : v_{x, y, z, w} {}
  void setRPY(double roll, double pitch, double yaw)
  {
    const double hy = yaw * 0.5, hp = pitch * 0.5, hr = roll * 0.5;
    const double cy = std::cos(hy), sy = std::sin(hy), cp = std::cos(hp), sp = std::sin(hp);
    const double cr = std::cos(hr), sr = std::sin(hr);
    v_[0] = sr * cp * cy - cr * sp * sy;
    v_[1] = cr * sp * cy + sr * cp * sy;
    v_[2] = cr * cp * sy - sr * sp * cy;
    v_[3] = cr * cp * cy + sr * sp * sy;
  }
  void setValue(double x, double y, double z, double w) {v_[0] = x; v_[1] = y; v_[2] = z; v_[3] = w;}
  double x() const {return v_[0];}
  double y() const {return v_[1];}
  double z() const {return v_[2];}
  double w() const {return v_[3];}
  double getX() const {return v_[0];}
  double getY() const {return v_[1];}
  double getZ() const {return v_[2];}
  double getW() const {return v_[3];}
  double length2() const {return v_[0] * v_[0] + v_[1] * v_[1] + v_[2] * v_[2] + v_[3] * v_[3];}
  Quaternion & normalize()
  {
    const double n = std::sqrt(length2());
    for (double & e : v_) {e /= n;}
    return *this;
  }

private:
  double v_[4];
};

class Matrix3x3
{
public:
  explicit Matrix3x3(const Quaternion & q)
  {
    const double d = q.length2(), s = 2.0 / d;
    const double xs = q.x() * s, ys = q.y() * s, zs = q.z() * s;
    const double wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs;
    const double xx = q.x() * xs, xy = q.x() * ys, xz = q.x() * zs;
    const double yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs;
    m_[0][0] = 1.0 - (yy + zz); m_[0][1] = xy - wz; m_[0][2] = xz + wy;
    m_[1][0] = xy + wz; m_[1][1] = 1.0 - (xx + zz); m_[1][2] = yz - wx;
    m_[2][0] = xz - wy; m_[2][1] = yz + wx; m_[2][2] = 1.0 - (xx + yy);
  }
  void getEulerYPR(double & yaw, double & pitch, double & roll, unsigned int = 1) const
  {
    if (std::fabs(m_[2][0]) >= 1) {
      yaw = 0;
      const double delta = std::atan2(m_[2][1], m_[2][2]);
      if (m_[2][0] < 0) {
        pitch = M_PI / 2.0;
        roll = delta;
      } else {
        pitch = -M_PI / 2.0;
        roll = delta;
      }
      return;
    }
    pitch = -std::asin(m_[2][0]);
    roll = std::atan2(m_[2][1] / std::cos(pitch), m_[2][2] / std::cos(pitch));
    yaw = std::atan2(m_[1][0] / std::cos(pitch), m_[0][0] / std::cos(pitch));
  }
  void getRPY(double & roll, double & pitch, double & yaw, unsigned int n = 1) const
  {
    getEulerYPR(yaw, pitch, roll, n);
  }

private:
  double m_[3][3];
};

// --- conversions
inline void fromMsg(const geometry_msgs::msg::Quaternion & in, Quaternion & out)
{
  out = Quaternion(in.x, in.y, in.z, in.w);
}
inline geometry_msgs::msg::Quaternion toMsg(const Quaternion & in)
{
  geometry_msgs::msg::Quaternion q;
  q.x = in.x(); q.y = in.y(); q.z = in.z(); q.w = in.w();
  return q;
}
inline void fromMsg(const geometry_msgs::msg::Pose & m, Eigen::Isometry3d & out)
{
  out = Eigen::Isometry3d(
    Eigen::Translation3d(m.position.x, m.position.y, m.position.z) *
    Eigen::Quaterniond(m.orientation.w, m.orientation.x, m.orientation.y, m.orientation.z));
}
inline void fromMsg(const geometry_msgs::msg::Pose & m, Eigen::Affine3d & out)
{
  out = Eigen::Affine3d(
    Eigen::Translation3d(m.position.x, m.position.y, m.position.z) *
    Eigen::Quaterniond(m.orientation.w, m.orientation.x, m.orientation.y, m.orientation.z));
}
template<typename T>
geometry_msgs::msg::Pose PoseFromEigen_(const T & in)
{
  geometry_msgs::msg::Pose msg;
  msg.position.x = in.translation().x();
  msg.position.y = in.translation().y();
  msg.position.z = in.translation().z();
  const Eigen::Quaterniond q(in.linear());
  msg.orientation.x = q.x();
  msg.orientation.y = q.y();
  msg.orientation.z = q.z();
  msg.orientation.w = q.w();
  if (msg.orientation.w < 0) {
    msg.orientation.x *= -1; msg.orientation.y *= -1;
    msg.orientation.z *= -1; msg.orientation.w *= -1;
  }
  return msg;
}
inline geometry_msgs::msg::Pose toMsg(const Eigen::Isometry3d & in) {return PoseFromEigen_(in);}
inline geometry_msgs::msg::Pose toMsg(const Eigen::Affine3d & in) {return PoseFromEigen_(in);}
inline geometry_msgs::msg::Point toMsg(const Eigen::Vector3d & in)
{
  geometry_msgs::msg::Point p;
  p.x = in.x(); p.y = in.y(); p.z = in.z();
  return p;
}
inline void fromMsg(const geometry_msgs::msg::Point & m, Eigen::Vector3d & out)
{
  out = Eigen::Vector3d(m.x, m.y, m.z);
}
inline void fromMsg(const geometry_msgs::msg::Vector3 & m, Eigen::Vector3d & out)
{
  out = Eigen::Vector3d(m.x, m.y, m.z);
}
inline geometry_msgs::msg::Quaternion toMsg(const Eigen::Quaterniond & in)
{
  geometry_msgs::msg::Quaternion q;
  q.w = in.w(); q.x = in.x(); q.y = in.y(); q.z = in.z();
  return q;
}
inline void fromMsg(const geometry_msgs::msg::Quaternion & m, Eigen::Quaterniond & out)
{
  out = Eigen::Quaterniond(m.w, m.x, m.y, m.z);
}
template<typename T>
geometry_msgs::msg::TransformStamped TransformFromEigen_(const T & t)
{
  geometry_msgs::msg::TransformStamped m;
  m.transform.translation.x = t.translation().x();
  m.transform.translation.y = t.translation().y();
  m.transform.translation.z = t.translation().z();
  const Eigen::Quaterniond q(t.linear());
  m.transform.rotation.x = q.x();
  m.transform.rotation.y = q.y();
  m.transform.rotation.z = q.z();
  m.transform.rotation.w = q.w();
  return m;
}
inline geometry_msgs::msg::TransformStamped eigenToTransform(const Eigen::Affine3d & t) {return TransformFromEigen_(t);}
inline geometry_msgs::msg::TransformStamped eigenToTransform(const Eigen::Isometry3d & t) {return TransformFromEigen_(t);}
inline Eigen::Isometry3d transformToEigen(const geometry_msgs::msg::Transform & t)
{
  return Eigen::Isometry3d(
    Eigen::Translation3d(t.translation.x, t.translation.y, t.translation.z) *
    Eigen::Quaterniond(t.rotation.w, t.rotation.x, t.rotation.y, t.rotation.z));
}
inline Eigen::Isometry3d transformToEigen(const geometry_msgs::msg::TransformStamped & t)
{
  return transformToEigen(t.transform);
}

inline double getYaw(const Quaternion & q)
{
  const double sqx = q.x() * q.x(), sqy = q.y() * q.y(), sqz = q.z() * q.z(), sqw = q.w() * q.w();
  const double sarg = -2 * (q.x() * q.z() - q.w() * q.y()) / (sqx + sqy + sqz + sqw);
  if (sarg <= -0.99999) {return -2 * std::atan2(q.y(), q.x());}
  if (sarg >= 0.99999) {return 2 * std::atan2(q.y(), q.x());}
  return std::atan2(2 * (q.x() * q.y() + q.w() * q.z()), sqw + sqx - sqy - sqz);
}
inline double getYaw(const geometry_msgs::msg::Quaternion & m)
{
  return getYaw(Quaternion(m.x, m.y, m.z, m.w));
}

class BufferCore
{
public:
  explicit BufferCore(Duration = std::chrono::seconds(10)) {}
  virtual ~BufferCore() {}
  geometry_msgs::msg::TransformStamped lookupTransform(
    const std::string & target, const std::string & source, const TimePoint &) const
  {
    for (const auto & f : {target, source}) {
      if (f.empty()) {throw InvalidArgumentException("frame_ids cannot be empty");}
      if (f[0] == '/') {throw InvalidArgumentException("frame_ids cannot start with a '/': " + f);}
    }
    geometry_msgs::msg::TransformStamped t;
    t.header.frame_id = target;
    t.child_frame_id = source;
    if (target == source) {return t;}
    const auto it = shim::bus().tf.find({target, source});
    if (it == shim::bus().tf.end()) {
      throw LookupException("\"" + source + "\" passed to lookupTransform does not exist");
    }
    t.transform = it->second.transform;
    return t;
  }
  bool canTransform(
    const std::string & target, const std::string & source, const TimePoint &,
    std::string * = nullptr) const
  {
    return target == source || shim::bus().tf.count({target, source}) > 0;
  }
};
}  // namespace tf2

namespace tf2_ros
{
class Buffer : public tf2::BufferCore
{
public:
  Buffer() {}
  template<typename C>
  explicit Buffer(C) {}
};
class TransformListener
{
public:
  template<typename ... A>
  explicit TransformListener(tf2::BufferCore & b, A && ...) : buffer_(b) {}

private:
  tf2::BufferCore & buffer_;
};
class TransformBroadcaster
{
public:
  template<typename NodeT>
  explicit TransformBroadcaster(NodeT &&) {}
  void sendTransform(const geometry_msgs::msg::TransformStamped & t)
  {
    if (!shim::bus().ok) {shim::bus().dropped_after_shutdown++; return;}
    shim::bus().transforms.push_back(t);
    shim::bus().order.push_back(shim::Event{"tf", t.child_frame_id});
  }
  void sendTransform(const std::vector<geometry_msgs::msg::TransformStamped> & ts)
  {
    for (const auto & t : ts) {sendTransform(t);}
  }
};
class StaticTransformBroadcaster
{
public:
  template<typename NodeT>
  explicit StaticTransformBroadcaster(NodeT &&) {}
  void sendTransform(const geometry_msgs::msg::TransformStamped & t)
  {
    if (!shim::bus().ok) {shim::bus().dropped_after_shutdown++; return;}
    shim::bus().static_transforms.push_back(t);
    shim::bus().order.push_back(shim::Event{"static_tf", t.child_frame_id});
  }
  void sendTransform(const std::vector<geometry_msgs::msg::TransformStamped> & ts)
  {
    for (const auto & t : ts) {sendTransform(t);}
  }
};
}  // namespace tf2_ros
#endif  // VERIF_TF2SHIM_HPP_
