// The EKF localizer node, from its main on, against a reference filter fed with the same messages. mode: C16
#include "vh.hpp"
#include "ekf_ref.hpp"
#include <rclcpp/rclcpp.hpp>
#define main app_main
#include "ekf_localizer/src/ekf_localizer_node.cpp"
#undef main

namespace monitor
{
using ref::Mat;
using ref::Vec;
using PoseMsg = geometry_msgs::msg::PoseWithCovarianceStamped;
using TwistMsg = geometry_msgs::msg::TwistWithCovarianceStamped;

static Mat spd(vh::Rng & r, int n, double lo, double hi)
{
  Mat b(n, n);
  for (int i = 0; i < n * n; i++) {b.data()[i] = r.n();}
  Mat m = b * b.transpose() / n + Mat::Identity(n, n) * 0.3;
  for (int k = 0; k < n; k++) {
    const double s = std::sqrt(r.lg(lo, hi));
    m.row(k) *= s;
    m.col(k) *= s;
  }
  return (m + m.transpose()) / 2;
}
static double angle(vh::Rng & r)
{
  switch (r.i(0, 3)) {
    case 0: return r.of({0., M_PI, -M_PI, M_PI / 2, -M_PI / 2});
    case 1: return r.sign() * (M_PI - r.lg(1e-9, 0.1));
    default: return r.u(-M_PI, M_PI);
  }
}
static geometry_msgs::msg::Quaternion orientation(double roll, double pitch, double yaw, double scale)
{
  const Eigen::Quaterniond q = Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(pitch, Eigen::Vector3d::UnitY()) *
    Eigen::AngleAxisd(roll, Eigen::Vector3d::UnitX());
  geometry_msgs::msg::Quaternion m;
  m.w = q.w() * scale;
  m.x = q.x() * scale;
  m.y = q.y() * scale;
  m.z = q.z() * scale;
  return m;
}
static builtin_interfaces::msg::Time stamp_of(int64_t ns)
{
  builtin_interfaces::msg::Time t;
  t.sec = static_cast<int32_t>(ns / 1000000000LL);
  t.nanosec = static_cast<uint32_t>(ns % 1000000000LL);
  return t;
}
static int64_t ns_of(const builtin_interfaces::msg::Time & t) {return t.sec * 1000000000LL + t.nanosec;}

class Script
{
public:
  explicit Script(vh::Case & c) : c_(c), r(c.rng) {}

  void run()
  {
    shim::reset();
    auto & b = shim::bus();
    frame_ = r.of({"map", "map", "/map", "odom", "m%sp%n"});
    drive_ = r.chance(0.006);
    set_.history = static_cast<int>(r.chance(drive_ ? 0.05 : 0.03) ? 50 : r.i(1, drive_ ? 12 : 8));
    set_.pose_count = static_cast<int>(r.i(1, 6));
    set_.twist_count = static_cast<int>(r.i(1, 4));
    set_.pose_gate = r.of({1e4, 1e4, r.lg(0.3, 30)});
    set_.twist_gate = r.of({1e4, 1e4, r.lg(0.3, 30)});
    frequency_ = r.of({50., 10., 1., 0.05, 0., -1., r.lg(0.01, 100)});
    sy_ = r.u(0.001, 0.05);
    sb_ = r.u(0.0001, 0.01);
    sv_ = r.u(0.1, 5);
    sw_ = r.u(0.05, 1);
    bias_ = r.chance(0.7);
    if (set_.history != 50 || r.chance(0.5)) {b.params["extend_state_step"] = static_cast<int64_t>(set_.history);}
    b.params["predict_frequency"] = frequency_;
    b.params["pose_frame_id"] = frame_;
    b.params["pose_smoothing_steps"] = static_cast<int64_t>(set_.pose_count);
    b.params["twist_smoothing_steps"] = static_cast<int64_t>(set_.twist_count);
    b.params["pose_gate_dist"] = set_.pose_gate;
    b.params["twist_gate_dist"] = set_.twist_gate;
    b.params["proc_stddev_yaw_c"] = sy_;
    b.params["enable_yaw_bias_estimation"] = bias_;
    b.params["proc_stddev_yaw_bias_c"] = sb_;
    b.params["proc_stddev_vx_c"] = sv_;
    b.params["proc_stddev_wz_c"] = sw_;
    const std::string target = frame_[0] == '/' ? frame_.substr(1) : frame_;
    if (drive_) {
      set_.pose_count = static_cast<int>(r.i(1, 3));
      b.params["pose_smoothing_steps"] = static_cast<int64_t>(set_.pose_count);
    }
    for (const char * source : {"world", "base"}) {
      geometry_msgs::msg::TransformStamped t;
      t.header.frame_id = target;
      t.child_frame_id = source;
      t.transform.translation.x = r.u(-50, 50);
      t.transform.translation.y = r.u(-50, 50);
      t.transform.translation.z = r.u(-5, 5);
      t.transform.rotation = orientation(0, 0, r.chance(0.4) ? 0 : angle(r), r.of({1., -1.}));
      b.tf[{target, source}] = t;
    }
    exact_ = r.chance(0.5);
    b.now_ns = (exact_ ? 1700000000LL : r.of({0LL, 3LL, 1000LL})) * 1000000000LL;
    period_ = exact_ ? r.of({1, 2, 6, 64}) * 15625000LL : static_cast<int64_t>(r.of({0.02, 0.1, 1., r.lg(0.01, 5)}) * 1e9);
    log_ = vh::fmt("frame %s history %d counts %d %d gates %g %g frequency %g noise %g %g %g %g bias %d now %ld", frame_.c_str(), set_.history,
        set_.pose_count, set_.twist_count, set_.pose_gate, set_.twist_gate, frequency_, sy_, sb_, sv_, sw_, bias_, b.now_ns);
    if (drive_) {period_ = static_cast<int64_t>(r.of({0.02, 0.05, 0.1}) * 1e9);}
    c_.mark(log_);
    vh::note(log_);
    bool spun = false;
    b.on_spin = [&](std::shared_ptr<rclcpp::Node>) {
        spun = true;
        events();
      };
    char name[] = "ekf_localizer";
    char * argv[] = {name, nullptr};
    const int rc = app_main(1, argv);
    VH_CHECK(rc == 0 && spun, "main", "returned %d", rc);
    c_.nontrivial = compared_ > 0;
    c_.desc = log_.substr(0, 400);
    shim::reset();
  }

private:
  void say(const std::string & s)
  {
    log_ += s;
    vh::note(log_);
  }
  int64_t now() const {return shim::bus().now_ns;}

  void events()
  {
    auto & b = shim::bus();
    VH_CHECK(b.timers.size() >= 1, "timer", "no timer");
    const double want = 1 / (frequency_ > 0.1 ? frequency_ : 0.1);
    VH_CHECK(vh::close(b.timers[0]->period().seconds(), want, 1e-6, 1e-8), "timer-period", "%g s, expected %g s", b.timers[0]->period().seconds(), want);
    if (drive_) {return drive();}
    const int n = static_cast<int>(set_.history == 50 ? r.i(10, 20) : r.i(5, 60));
    const double p_init = r.of({0.03, 0.1}), p_hostile = r.of({0., 0.1, 0.3});
    const bool early = r.chance(0.6);
    if (early) {initial(false);}
    for (int k = 0; k < n; k++) {
      const double what = r.u();
      if (what < p_init) {initial(r.chance(p_hostile));
      } else if (what < 0.35) {pose(r.chance(p_hostile));
      } else if (what < 0.6) {twist(r.chance(p_hostile));
      } else {tick();}
      c_.mark(what);
      VH_CHECK(b.bad_formats.empty(), "format", "the log format '%s' asks for an argument", b.bad_formats[0].c_str());
    }
    tick();
  }

  // A vehicle that drives, turns and stands, with sensors that agree with its motion
  void drive()
  {
    vh::count("drives");
    initial(false);
    const int n = static_cast<int>(set_.history == 50 ? r.i(20, 40) : r.i(100, 500));
    const int every = static_cast<int>(r.i(2, 10)), late = static_cast<int>(r.i(0, set_.history - 1));
    const double sigma = r.of({0., 0.01, 0.05});
    std::deque<ref::V6> past;
    ref::V6 x = filter_ ? filter_->x() : ref::V6(ref::V6::Zero());
    x(3) = r.u(-0.02, 0.02);
    for (int k = 0; k < n; k++) {
      if (k % 50 == 0) {
        const bool stands = r.chance(0.3);
        x(4) = stands ? 0 : r.u(-2, 15);
        x(5) = stands ? 0 : r.u(-0.3, 0.3);
      }
      x = ref::motion(x, static_cast<double>(period_) / 1e9);
      past.push_front(x);
      if (k % every == 0 && static_cast<int>(past.size()) > late) {
        const ref::V6 p = past[late];
        Vec y(3);
        y << p(0) + sigma * r.n(), p(1) + sigma * r.n(), ref::wrap(p(2) + p(3) + 0.1 * sigma * r.n());
        pose(false, &y, now() - late * period_);
      }
      if (r.chance(0.8)) {
        Vec y(2);
        y << x(4) + sigma * r.n(), x(5) + 0.1 * sigma * r.n();
        twist(false, &y, now());
      }
      tick(period_);
      if (static_cast<int>(past.size()) > set_.history) {past.pop_back();}
    }
  }

  void initial(bool hostile)
  {
    PoseMsg m;
    const std::string f = r.chance(0.7) ? r.of({std::string(frame_), std::string("world"), std::string("/base"), std::string("base")}) :
      r.of({std::string("unknown"), std::string(""), std::string("/"), std::string("100%n%s"), "/" + frame_});
    m.header.frame_id = f;
    m.header.stamp = stamp_of(r.chance(0.2) ? 0 : now());
    const double yaw = angle(r), roll = r.u(-0.5, 0.5), pitch = r.u(-0.5, 0.5);
    m.pose.pose.position.x = r.u(-300, 300);
    m.pose.pose.position.y = r.u(-300, 300);
    m.pose.pose.position.z = r.u(-30, 30);
    m.pose.pose.orientation = orientation(roll, pitch, yaw, r.of({1., -1., 2., 0.5}));
    const Mat C = spd(r, 6, 0.01, 10);
    for (int k = 0; k < 36; k++) {m.pose.covariance[k] = C(k / 6, k % 6);}
    bool finite = true, sure = true;
    if (hostile) {
      switch (r.i(0, 4)) {
        case 0: m.pose.pose.position.x = NAN; finite = false; break;
        case 1: m.pose.pose.orientation.z = NAN; finite = false; break;
        case 2: m.pose.covariance.fill(0); sure = false; break;
        case 3: m.pose.pose.orientation = orientation(0, 0, 0, 0); sure = false; break;
        default: m.pose.pose.orientation = orientation(0.3, r.sign() * M_PI / 2, 0.2, 1); sure = false; break;
      }
    }
    const std::string source = !f.empty() && f[0] == '/' ? f.substr(1) : f;
    const std::string target = frame_[0] == '/' ? frame_.substr(1) : frame_;
    bool known = source == target && !source.empty();
    Eigen::Vector3d t = Eigen::Vector3d::Zero();
    double turn = 0;
    const auto it = shim::bus().tf.find({target, source});
    if (it != shim::bus().tf.end()) {
      known = true;
      const auto & tr = it->second.transform;
      t = Eigen::Vector3d(tr.translation.x, tr.translation.y, tr.translation.z);
      turn = 2 * std::atan2(tr.rotation.z, tr.rotation.w);
    }
    if (!source.empty() && source[0] == '/') {known = false;}
    say(vh::fmt(" | initial '%s' %g %g %g rpy %.12g %.12g %.12g%s", f.c_str(), m.pose.pose.position.x, m.pose.pose.position.y, m.pose.pose.position.z,
      roll, pitch, yaw, hostile ? " hostile" : ""));
    const size_t before = shim::bus().total_published();
    shim::deliver<PoseMsg>("initialpose", m);
    VH_CHECK(shim::bus().total_published() == before, "published-early", "an initial pose alone caused a publication");
    if (!known) {
      vh::count("initial_unresolved");
      return;
    }
    const Eigen::Vector3d p0(m.pose.pose.position.x, m.pose.pose.position.y, m.pose.pose.position.z);
    const Eigen::Vector3d p = Eigen::AngleAxisd(turn, Eigen::Vector3d::UnitZ()) * p0 + t;
    ref::V6 x = ref::V6::Zero();
    x << p(0), p(1), yaw + turn, 0, 0, 0;
    ref::V6 d;
    d << m.pose.covariance[0], m.pose.covariance[7], m.pose.covariance[35], 1e-4, 0.01, 0.01;
    filter_ = std::make_unique<ref::Filter>(x, ref::M6(d.asDiagonal()), set_.history);
    ref::V6 near;
    for (int k = 0; k < 6; k++) {near(k) = x(k) * (1 + 1e-12 * r.n());}
    shadow_ = std::make_unique<ref::Filter>(near, ref::M6((d * (1 + 1e-12)).asDiagonal()), set_.history);
    finite_ = finite;
    pmax_ = C.norm();
    sure_ = sure && finite;
    poses_.clear();
    twists_.clear();
    z_.restart();
    roll_.restart();
    pitch_.restart();
    observe(m, p(2), sure && finite);
    vh::count(inits_++ ? "reinitialised" : "initialised");
  }

  void observe(const PoseMsg & m, double z, bool oriented)
  {
    const int64_t ns = ns_of(m.header.stamp);
    z_.observe(z, std::sqrt(m.pose.covariance[14]), ns);
    double roll = NAN, pitch = NAN, yaw;
    const auto & q = m.pose.pose.orientation;
    if (!oriented || !ref::angles(q.x, q.y, q.z, q.w, roll, pitch, yaw)) {
      roll_.unsure();
      pitch_.unsure();
      return;
    }
    roll_.observe(roll, std::sqrt(m.pose.covariance[21]), ns);
    pitch_.observe(pitch, std::sqrt(m.pose.covariance[28]), ns);
  }

  int64_t stamp()
  {
    int64_t ns;
    switch (r.i(0, 9)) {
      case 0: ns = 0; break;
      case 1: ns = now() + r.i(0, 5000000000LL); break;
      case 2: ns = now() - r.i(0, 900) * 1000000000LL; break;
      case 3: ns = now(); break;
      default: ns = now() - static_cast<int64_t>((static_cast<double>(r.i(0, set_.history)) + r.u(-0.4, 0.4)) * static_cast<double>(period_)); break;
    }
    return std::max<int64_t>(ns, 0);
  }

  void pose(bool hostile, const Vec * given = nullptr, int64_t given_ns = 0)
  {
    PoseMsg m;
    const int64_t ns = given ? std::max<int64_t>(0, given_ns) : stamp();
    m.header.stamp = stamp_of(ns);
    m.header.frame_id = r.chance(0.9) ? frame_ : r.of({"", "world", "%n"});
    const ref::V6 x = filter_ ? filter_->x() : ref::V6::Zero();
    const double spread = r.of({0.1, 1., 30.});
    Vec y(3);
    y << x(0) + r.n() * spread, x(1) + r.n() * spread, ref::wrap(r.chance(0.7) ? x(2) + r.n() * 0.2 : angle(r));
    if (given) {y = *given;}
    if (!y.allFinite()) {y << 1, 2, 0.3;}
    const double roll = r.u(-0.5, 0.5), pitch = r.u(-0.5, 0.5);
    m.pose.pose.position.x = y(0);
    m.pose.pose.position.y = y(1);
    m.pose.pose.position.z = r.u(-30, 30);
    m.pose.pose.orientation = orientation(roll, pitch, y(2), r.of({1., 1., -1., 2.}));
    Mat C = spd(r, 6, 0.01, 10);
    bool known = true;
    if (hostile) {
      switch (r.i(0, 6)) {
        case 0: m.pose.pose.position.x = y(0) = r.of({NAN, INFINITY}); break;
        case 1: m.pose.pose.position.y = y(1) = r.of({NAN, -INFINITY}); break;
        case 2: m.pose.pose.position.z = NAN; break;
        case 3: m.pose.pose.orientation.x = NAN; y(2) = NAN; break;
        case 4: m.pose.pose.orientation = orientation(0, 0, 0, 0); known = false; break;
        case 5: m.pose.pose.orientation = orientation(0.2, r.sign() * M_PI / 2, 0.1, 1); known = false; break;
        default: C.setZero(); break;
      }
    }
    for (int k = 0; k < 36; k++) {m.pose.covariance[k] = C(k / 6, k % 6);}
    say(vh::fmt(" | pose stamp %ld %g %g %g rpy %.12g %.12g %.12g%s", ns - now(), y(0), y(1), m.pose.pose.position.z, roll, pitch, y(2), hostile ? " hostile" : ""));
    const size_t before = shim::bus().total_published();
    shim::deliver<PoseMsg>("in_pose_with_covariance", m);
    VH_CHECK(shim::bus().total_published() == before, "published-early", "a pose alone caused a publication");
    observe(m, m.pose.pose.position.z, known && std::isfinite(y(2)));
    Mat r3(3, 3);
    const int at3[3] = {0, 1, 5};
    for (int i = 0; i < 3; i++) {for (int j = 0; j < 3; j++) {r3(i, j) = C(at3[i], at3[j]);}}
    poses_.push({ns, y, r3, known, 0});
    vh::count("poses");
  }

  void twist(bool hostile, const Vec * given = nullptr, int64_t given_ns = 0)
  {
    TwistMsg m;
    const int64_t ns = given ? std::max<int64_t>(0, given_ns) : stamp();
    m.header.stamp = stamp_of(ns);
    m.header.frame_id = r.chance(0.9) ? "base_link" : r.of({"", "world", "%s%s"});
    const ref::V6 x = filter_ ? filter_->x() : ref::V6::Zero();
    Vec y(2);
    y << x(4) + r.n() * r.of({0.1, 3.}), x(5) + r.n() * r.of({0.05, 1.});
    if (given) {y = *given;}
    if (!y.allFinite()) {y << 1, 0.2;}
    Mat C = spd(r, 6, 0.01, 10);
    if (hostile) {
      switch (r.i(0, 2)) {
        case 0: y(0) = r.of({NAN, INFINITY}); break;
        case 1: y(1) = r.of({NAN, -INFINITY}); break;
        default: C.setZero(); break;
      }
    }
    m.twist.twist.linear.x = y(0);
    m.twist.twist.linear.y = r.n();
    m.twist.twist.linear.z = r.n();
    m.twist.twist.angular.x = r.n();
    m.twist.twist.angular.y = hostile ? NAN : r.n();
    m.twist.twist.angular.z = y(1);
    for (int k = 0; k < 36; k++) {m.twist.covariance[k] = C(k / 6, k % 6);}
    say(vh::fmt(" | twist stamp %ld %g %g%s", ns - now(), y(0), y(1), hostile ? " hostile" : ""));
    const size_t before = shim::bus().total_published();
    shim::deliver<TwistMsg>("in_twist_with_covariance", m);
    VH_CHECK(shim::bus().total_published() == before, "published-early", "a twist alone caused a publication");
    Mat r2(2, 2);
    r2 << C(0, 0), C(0, 5), C(5, 0), C(5, 5);
    twists_.push({ns, y, r2, true, 0});
    vh::count("twists");
  }

  void tick(int64_t forward = -1)
  {
    auto & b = shim::bus();
    const double what = r.u();
    int64_t step = period_;
    if (what < 0.05) {step = 0;
    } else if (what < 0.1) {step = -r.i(1, 3) * period_;
    } else if (what < 0.15) {step = 3 * period_;
    } else if (what < 0.17) {step = exact_ ? 20000000000LL : 11500000000LL;}
    if (forward >= 0) {step = forward;}
    b.now_ns = std::max<int64_t>(0, b.now_ns + step);
    say(vh::fmt(" | tick %+ld", step));
    const size_t odoms = b.published<nav_msgs::msg::Odometry>("ekf_odom").size(), tfs = b.transforms.size();
    shim::fire_timers();
    const auto pub = b.published<nav_msgs::msg::Odometry>("ekf_odom");
    const size_t new_odoms = pub.size() - odoms, new_tfs = b.transforms.size() - tfs;
    if (!filter_) {
      VH_CHECK(new_odoms == 0 && new_tfs == 0, "published-early", "%zu odometry messages and %zu transforms before initialisation", new_odoms, new_tfs);
      VH_CHECK(b.total_published() == 0, "published-early", "something was published before initialisation");
      vh::count("ticks_before_initialisation");
      return;
    }
    if (have_last_ && now() < last_) {
      VH_CHECK(new_odoms == 0 && new_tfs == 0, "backward-clock", "%zu odometry messages and %zu transforms", new_odoms, new_tfs);
      vh::count("ticks_backward");
      return;
    }
    VH_CHECK(new_odoms == 1 && new_tfs == 1, "one-each", "%zu odometry messages and %zu transforms", new_odoms, new_tfs);
    const auto odom = pub.back();
    const auto tf = b.transforms.back();
    VH_CHECK(ns_of(odom->header.stamp) == now() && ns_of(tf.header.stamp) == now(), "stamp", "%ld and %ld at %ld", ns_of(odom->header.stamp), ns_of(tf.header.stamp), now());
    VH_CHECK(odom->header.frame_id == frame_ && tf.header.frame_id == frame_, "frame", "'%s' and '%s'", odom->header.frame_id.c_str(), tf.header.frame_id.c_str());
    VH_CHECK(odom->child_frame_id == "base_link" && tf.child_frame_id == "base_link", "child-frame", "'%s' and '%s'", odom->child_frame_id.c_str(), tf.child_frame_id.c_str());

    double dt;
    if (!have_last_) {
      dt = 1 / (frequency_ > 0.1 ? frequency_ : 0.1);
    } else {
      dt = std::min(static_cast<double>(now()) / 1e9 - static_cast<double>(last_) / 1e9, 10.);
    }
    have_last_ = true;
    last_ = now();
    const auto & p = odom->pose.pose.position;
    const auto & q = odom->pose.pose.orientation;
    const auto & tw = odom->twist.twist;
    if (finite_) {
      bool ok = true;
      for (double v : {p.x, p.y, p.z, q.x, q.y, q.z, q.w, tw.linear.x, tw.linear.y, tw.linear.z, tw.angular.x, tw.angular.y, tw.angular.z,
          tf.transform.translation.x, tf.transform.translation.y, tf.transform.translation.z, tf.transform.rotation.x, tf.transform.rotation.y,
          tf.transform.rotation.z, tf.transform.rotation.w})
      {
        ok = ok && std::isfinite(v);
      }
      for (int k = 0; k < 36; k++) {ok = ok && std::isfinite(odom->pose.covariance[k]) && std::isfinite(odom->twist.covariance[k]);}
      VH_CHECK(ok, "finite", "position %g %g %g orientation %g %g %g %g twist %g %g", p.x, p.y, p.z, q.x, q.y, q.z, q.w, tw.linear.x, tw.angular.z);
      const auto & tq = tf.transform.rotation;
      const double n = q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w, m = tq.x * tq.x + tq.y * tq.y + tq.z * tq.z + tq.w * tq.w;
      VH_CHECK(std::abs(n - 1) < 1e-9 && std::abs(m - 1) < 1e-9, "unit", "squared norms %.17g and %.17g", n, m);
      vh::count("ticks_finite");
    }
    // both messages hold the same pose
    const auto & tt = tf.transform.translation;
    const auto & tq = tf.transform.rotation;
    if (finite_) {
      VH_CHECK(tt.x == p.x && tt.y == p.y && tt.z == p.z && std::abs(std::abs(tq.x * q.x + tq.y * q.y + tq.z * q.z + tq.w * q.w) - 1) < 1e-12, "same-pose",
        "the transform differs from the odometry");
    }
    if (!finite_) {
      vh::count("ticks_not_finite");
      return;
    }
    // the reference takes the same step
    const ref::V6 x = filter_->x();
    ref::V6 noise;
    const double sb = bias_ ? sb_ : 0;
    noise << 0, 0, sy_ * sy_, sb * sb, sv_ * sv_, sw_ * sw_;
    if (x.allFinite()) {
      filter_->predict(ref::motion(x, dt), ref::derivative(x, dt), ref::M6((noise * dt * dt).asDiagonal()));
      ref::Tick t, ts;
      // the same step with slightly disturbed numbers tells how far rounding may carry the result
      const ref::V6 xs = shadow_->x();
      shadow_->predict(ref::motion(xs, dt) * (1 + 1e-12), ref::derivative(xs, dt), ref::M6((noise * dt * dt * (1 + 1e-12)).asDiagonal()));
      ref::Queue sp = poses_, st = twists_;
      sp.process(*shadow_, now(), dt, true, set_.pose_count, set_.pose_gate, ts);
      st.process(*shadow_, now(), dt, false, set_.twist_count, set_.twist_gate, ts);
      poses_.process(*filter_, now(), dt, true, set_.pose_count, set_.pose_gate, t);
      twists_.process(*filter_, now(), dt, false, set_.twist_count, set_.twist_gate, t);
      if (sure_) {
        vh::count("applied", t.applied);
        vh::count("applied_delayed", t.delayed);
        vh::count("rejected", t.too_old + t.gated + t.not_finite + t.no_gain);
        vh::count("wrapped_yaw", t.wrapped);
      }
      pmax_ = std::max(pmax_, filter_->pnorm());
      const ref::V6 dx = filter_->x() - shadow_->x();
      sure_ = sure_ && t.sure && ts.sure && t.applied == ts.applied && pmax_ < 1e8 && filter_->worst() < 1e6 && filter_->norm() < 1e7 &&
        dx.norm() < 1e-6 * (1 + filter_->x().norm()) && (filter_->p() - shadow_->p()).norm() < 1e-6 * filter_->pnorm();
    }
    if (!sure_) {
      vh::count("ticks_undecided");
      return;
    }
    const ref::V6 e = filter_->x();
    const ref::V6 es = shadow_->x();
    const double pn = filter_->pnorm(), dx = (e - es).norm();
    const double at = 2e-6 + 100 * dx, pt = 1e-6 + 1e-9 * filter_->norm() + 1e-7 * std::sqrt(pn) + 100 * dx;
    const double ct = 1e-7 * pn + 100 * (filter_->p() - shadow_->p()).norm() + 1e-12 * pmax_;
    VH_CHECK(std::abs(p.x - e(0)) < pt && std::abs(p.y - e(1)) < pt, "position", "%.12g %.12g, expected %.12g %.12g", p.x, p.y, e(0), e(1));
    VH_CHECK(!z_.sure() || std::abs(p.z - z_.x()) < 1e-8 * (1 + std::abs(z_.x())), "height", "%.12g, expected %.12g", p.z, z_.x());
    if (roll_.sure() && pitch_.sure()) {
      const auto w = orientation(roll_.x(), pitch_.x(), e(2) + e(3), 1);
      const double d = std::abs(w.x * q.x + w.y * q.y + w.z * q.z + w.w * q.w);
      const double off = 2 * std::sqrt(std::max(0., 2 * (1 - d)));
      VH_CHECK(off < at, "orientation", "off by %g rad: %g %g %g %g, expected %g %g %g %g", off, q.x, q.y, q.z, q.w, w.x, w.y, w.z, w.w);
      vh::count("orientations_compared");
    }
    VH_CHECK(std::abs(tw.linear.x - e(4)) < pt && std::abs(tw.angular.z - e(5)) < pt, "twist", "%.12g %.12g, expected %.12g %.12g", tw.linear.x, tw.angular.z, e(4), e(5));
    VH_CHECK(tw.linear.y == 0 && tw.linear.z == 0 && tw.angular.x == 0 && tw.angular.y == 0, "twist", "components that are no part of the model");
    const ref::M6 P = filter_->p();
    const int of_pose[6] = {0, 1, -1, -1, -1, 2}, of_twist[6] = {4, -1, -1, -1, -1, 5};
    for (int i = 0; i < 6; i++) {
      for (int j = 0; j < 6; j++) {
        const double wp = of_pose[i] < 0 || of_pose[j] < 0 ? 0 : P(of_pose[i], of_pose[j]);
        const double wt = of_twist[i] < 0 || of_twist[j] < 0 ? 0 : P(of_twist[i], of_twist[j]);
        VH_CHECK(std::abs(odom->pose.covariance[i * 6 + j] - wp) <= ct, "pose-covariance", "(%d, %d): %.12g, expected %.12g", i, j, odom->pose.covariance[i * 6 + j], wp);
        VH_CHECK(std::abs(odom->twist.covariance[i * 6 + j] - wt) <= ct, "twist-covariance", "(%d, %d): %.12g, expected %.12g", i, j, odom->twist.covariance[i * 6 + j], wt);
      }
    }
    compared_++;
    vh::count("ticks_compared");
  }

  vh::Case & c_;
  vh::Rng & r;
  ref::Settings set_;
  std::string frame_, log_;
  double pmax_ = 0, frequency_ = 50, sy_ = 0, sb_ = 0, sv_ = 0, sw_ = 0;
  bool bias_ = true, exact_ = false, finite_ = true, sure_ = true, have_last_ = false;
  int64_t period_ = 0, last_ = 0;
  int inits_ = 0, compared_ = 0;
  bool drive_ = false;
  std::unique_ptr<ref::Filter> filter_, shadow_;
  ref::Queue poses_, twists_;
  ref::OneD z_{1.0}, roll_{0.1}, pitch_{0.1};
};

void vh_case(vh::Case & c) {Script(c).run();}
}  // namespace monitor

void vh_case(vh::Case & c) {monitor::vh_case(c);}
