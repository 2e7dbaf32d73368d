// The parts of the EKF localizer. modes: C13 (model, time step, gate), C15 (measurements)
#include "vh.hpp"
#include <climits>
#include <memory>
#include <eigen3/Eigen/Core>
#include <eigen3/Eigen/Dense>
#include <rclcpp/rclcpp.hpp>
#include "ekf_ref.hpp"
#include "ekf_localizer/covariance.hpp"
#include "ekf_localizer/delay.hpp"
#include "ekf_localizer/mahalanobis.hpp"
#include "ekf_localizer/normalize_yaw.hpp"
#include "ekf_localizer/pose_measurement.hpp"
#include "ekf_localizer/state_index.hpp"
#include "ekf_localizer/state_transition.hpp"
#include "ekf_localizer/string.hpp"
#include "ekf_localizer/twist_measurement.hpp"
#include "ekf_localizer/update_interval.hpp"
#include "ekf_localizer/ekf_localizer.hpp"

namespace monitor
{
using ref::Mat;
using ref::Vec;

template<typename M>
static std::string shown(const M & m)
{
  std::string s;
  for (int i = 0; i < m.rows(); i++) {
    for (int j = 0; j < m.cols(); j++) {s += vh::fmt("%.12g ", m(i, j));}
    if (m.cols() > 1) {s += "; ";}
  }
  return s;
}
static Mat spd(vh::Rng & r, int n, double lo, double hi)
{
  Mat b(n, n);
  for (int i = 0; i < n * n; i++) {b.data()[i] = r.n();}
  Mat m = b * b.transpose() / n + Mat::Identity(n, n) * 0.3;
  for (int k = 0; k < n; k++) {
    const double s = std::sqrt(r.lg(lo, hi));
    m.row(k) *= s;
    m.col(k) *= s;
  }
  return (m + m.transpose()) / 2;
}
static double angle(vh::Rng & r)
{
  switch (r.i(0, 4)) {
    case 0: return r.of({0., M_PI, -M_PI, M_PI / 2, -M_PI / 2});
    case 1: return r.sign() * (M_PI - r.lg(1e-9, 0.1));
    case 2: return r.u(-20, 20);
    default: return r.u(-M_PI, M_PI);
  }
}

// ------------------------------------------------------------------ C13
static void check_model(vh::Case & c)
{
  vh::Rng & r = c.rng;
  ref::V6 s;
  s << r.u(-1e4, 1e4), r.u(-1e4, 1e4), angle(r), r.chance(0.3) ? 0. : r.u(-1, 1), r.chance(0.2) ? 0. : r.u(-40, 40),
    r.chance(0.2) ? 0. : r.u(-3, 3);
  const double dt = r.of({0., 0.01, 0.02, 0.1, 1., 10., r.u(0, 10)});
  vh::note(vh::fmt("state %s dt %.17g", shown(s).c_str(), dt));
  for (int k = 0; k < 6; k++) {c.mark(s(k));}
  c.mark(dt);
  const Vector6d got = predictNextState(s, dt);
  const ref::V6 want = ref::motion(s, dt);
  for (int k = 0; k < 6; k++) {
    double e = got(k) - want(k);
    if (k == 2) {e = ref::wrap(e);}
    VH_CHECK(std::abs(e) <= 1e-9 * (1 + std::abs(want(k)) + (k < 2 ? std::abs(s(k)) : 0)), "motion", "element %d: %.17g, expected %.17g", k, got(k), want(k));
  }
  VH_CHECK(got(2) >= -M_PI && got(2) <= M_PI, "yaw-range", "%.17g", got(2));
  const Matrix6d A = createStateTransitionMatrix(s, dt);
  // derivative of the prediction of this code, by differences
  for (int k = 0; k < 6; k++) {
    const double h = 1e-5 * (1 + (k < 2 ? 0 : 0));
    ref::V6 p = s, m = s;
    p(k) += h;
    m(k) -= h;
    const Vector6d hi = predictNextState(p, dt), lo = predictNextState(m, dt);
    for (int i = 0; i < 6; i++) {
      double d = hi(i) - lo(i);
      if (i == 2) {d = ref::wrap(d);}
      d /= p(k) - m(k);
      VH_CHECK(std::abs(A(i, k) - d) <= 1e-6 * (1 + std::abs(d)) + 1e-5, "jacobian", "(%d, %d): %.12g, differences give %.12g", i, k, A(i, k), d);
    }
  }
  const ref::M6 want_a = ref::derivative(s, dt);
  VH_CHECK((A - want_a).norm() <= 1e-9 * (1 + want_a.norm()), "jacobian", "%s, expected %s", shown(A).c_str(), shown(want_a).c_str());
  // noise
  const double sy = r.u(0, 2), sb = r.u(0, 2), sv = r.u(0, 9), sw = r.u(0, 2);
  const Matrix6d Q = processNoiseCovariance(DefaultVariance(sy, sb, sv, sw).TimeScaledVariances(dt));
  ref::M6 want_q = ref::M6::Zero();
  want_q(2, 2) = sy * sy * dt * dt;
  want_q(3, 3) = sb * sb * dt * dt;
  want_q(4, 4) = sv * sv * dt * dt;
  want_q(5, 5) = sw * sw * dt * dt;
  VH_CHECK((Q - want_q).norm() <= 1e-12 * (1 + want_q.norm()), "process-noise", "%s, expected %s", shown(Q).c_str(), shown(want_q).c_str());
  const Eigen::Vector4d v(r.n(), r.n(), r.n(), r.n());
  const Matrix6d D = processNoiseCovariance(v);
  for (int i = 0; i < 6; i++) {
    for (int j = 0; j < 6; j++) {
      VH_CHECK(D(i, j) == (i == j && i >= 2 ? v(i - 2) : 0.), "process-noise", "(%d, %d) is %g for %s", i, j, D(i, j), shown(v).c_str());
    }
  }
  // covariance messages
  Matrix6d P;
  for (int k = 0; k < 36; k++) {P.data()[k] = r.n();}
  const std::array<double, 36> pc = EKFCovarianceToPoseMessageCovariance(P), tc = EKFCovarianceToTwistMessageCovariance(P);
  const int state_of_pose[6] = {0, 1, -1, -1, -1, 2}, state_of_twist[6] = {4, -1, -1, -1, -1, 5};
  for (int i = 0; i < 6; i++) {
    for (int j = 0; j < 6; j++) {
      const int a = state_of_pose[i], b = state_of_pose[j], d = state_of_twist[i], e = state_of_twist[j];
      VH_CHECK(pc[i * 6 + j] == (a < 0 || b < 0 ? 0. : P(a, b)), "pose-covariance", "(%d, %d)", i, j);
      VH_CHECK(tc[i * 6 + j] == (d < 0 || e < 0 ? 0. : P(d, e)), "twist-covariance", "(%d, %d)", i, j);
    }
  }
  // helpers
  const double a = r.chance(0.3) ? angle(r) : r.u(-1e3, 1e3), na = normalizeYaw(a);
  VH_CHECK(na >= -M_PI && na <= M_PI && std::abs(ref::wrap(na - a)) <= 1e-9, "normalize", "%.17g of %.17g", na, a);
  std::string text, want_text;
  for (int k = static_cast<int>(r.i(0, 4)); k > 0; k--) {text += r.of({'/', 'a', 'b', '%', ' '});}
  want_text = !text.empty() && text[0] == '/' ? text.substr(1) : text;
  VH_CHECK(EraseBeginSlash(text) == want_text, "slash", "'%s' of '%s'", EraseBeginSlash(text).c_str(), text.c_str());
  vh::count("models");
}

static void check_interval(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const double frequency = r.of({50., 10., 0.1, 0.05, 0., -3., 1e6, r.lg(0.01, 1000)});
  UpdateInterval u(frequency);
  double now = r.of({0., 1000., 1.7e9}), last = 0;
  bool first = true;
  std::string log = vh::fmt("frequency %g", frequency);
  c.mark(frequency);
  for (int k = static_cast<int>(r.i(1, 12)); k > 0; k--) {
    now += r.of({0., 0.015625, 0.125, 0x1p-20, 0x1p-20, 0x1p-17, 0.5, 1., 9.875, 10., 10.125, 64., -0.015625, -1., -500., 1e6, -2e6});
    if (now < 0) {now = 0;}
    log += vh::fmt(" %.17g", now);
    vh::note(log);
    c.mark(now);
    double got = NAN;
    bool thrown = false;
    try {got = u.Compute(now);} catch (const std::invalid_argument &) {thrown = true;}
    if (first) {
      VH_CHECK(!thrown, "first-interval", "refused");
      const double want = 1 / (frequency > 0.1 ? frequency : 0.1);
      VH_CHECK(vh::close(got, want, 1e-12, 0), "first-interval", "%.17g, expected %.17g", got, want);
      first = false;
      last = now;
      vh::count("first_intervals");
    } else if (now < last) {
      VH_CHECK(thrown, "backward", "%.17g instead of an exception", got);
      vh::count("backward_refused");
    } else {
      VH_CHECK(!thrown, "interval", "refused");
      const double d = now - last, want = d > 10 ? 10 : d;
      VH_CHECK(vh::close(got, want, 1e-9, 1e-12), d > 10 ? "interval-limit" : "interval", "%.17g, expected %.17g", got, want);
      last = now;
      vh::count("intervals");
    }
  }
}

static void check_gate(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const int n = static_cast<int>(r.i(1, 4));
  const Mat C = spd(r, n, 1e-3, 1e3);
  Vec x(n), y(n);
  for (int k = 0; k < n; k++) {
    x(k) = r.n() * 10;
    y(k) = x(k) + r.n() * r.lg(1e-3, 100);
    c.mark(x(k));
  }
  vh::note("x " + shown(x) + " y " + shown(y) + " C " + shown(C));
  const Eigen::LLT<Mat> llt(C);
  const Vec w = llt.matrixL().solve(x - y);
  const double want = w.squaredNorm(), got = SquaredMahalanobis(x, y, C);
  VH_CHECK(vh::close(got, want, 1e-8, 1e-12), "mahalanobis", "%.17g, expected %.17g", got, want);
  const double d = std::sqrt(want);
  if (d > 1e-6) {
    for (double f : {1e-3, 0.5, 0.999, 1.001, 2., 1e4}) {
      VH_CHECK(MahalanobisGate(d * f, x, y, C) == (f > 1), "gate", "distance %g, limit %g", d, d * f);
      vh::count(f > 1 ? "gate_open" : "gate_closed");
    }
  }
  // a limit met exactly lets the measurement pass
  Vec one(1), zero(1);
  one << r.of({1., 2., 4., 0.5});
  zero << 0;
  VH_CHECK(MahalanobisGate(one(0), one, zero, Mat::Identity(1, 1)), "gate-limit", "distance equals the limit %g", one(0));
  // delay
  const int64_t now = r.i(0, 4000000000LL) * 1000000000LL / 2 + r.i(0, 999999999), stamp = r.chance(0.2) ? 0 : r.i(0, now + 1000000000LL);
  const double delay = ComputeDelayTime(rclcpp::Time(now, RCL_ROS_TIME), rclcpp::Time(stamp, RCL_ROS_TIME));
  VH_CHECK(vh::close(delay, static_cast<double>(now - stamp) / 1e9, 1e-12, 1e-9), "delay", "%.17g of %ld - %ld", delay, now, stamp);
  const double dt = r.of({0.02, 0.1, 1., 10., r.lg(1e-3, 10)});
  const int k = static_cast<int>(r.i(0, 1000));
  const double t = (k + r.u(-0.49, 0.49)) * dt;
  VH_CHECK(ComputeDelayStep(t, dt) == (t > 0 ? k : 0), "delay-step", "%d steps, delay %.17g dt %.17g", ComputeDelayStep(t, dt), t, dt);
  // out of range: anything beyond every possible history
  const double far = r.of({1e8, 1.7e9, 1e300});
  VH_CHECK(ComputeDelayStep(far, r.of({1e-3, 1e-9, 0.})) >= 1000000, "delay-step-range", "delay %g", far);
  VH_CHECK(ComputeDelayStep(r.of({0., -1., -1e300}), r.of({0., 0.1, 1e-9})) == 0, "delay-step-range", "no delay");
  VH_CHECK(ComputeInterval(r.of({0., -1., 0.1, -1e300})) == 10., "interval-limit", "frequency at most 0.1 Hz");
  vh::count("gates");
}

// ------------------------------------------------------------------ C15
static geometry_msgs::msg::Quaternion orientation(double roll, double pitch, double yaw, double scale)
{
  const Eigen::Quaterniond q = Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(pitch, Eigen::Vector3d::UnitY()) *
    Eigen::AngleAxisd(roll, Eigen::Vector3d::UnitX());
  geometry_msgs::msg::Quaternion m;
  m.w = q.w() * scale;
  m.x = q.x() * scale;
  m.y = q.y() * scale;
  m.z = q.z() * scale;
  return m;
}
static std::array<double, 36> covariance(const Mat & m)
{
  std::array<double, 36> a;
  for (int i = 0; i < 6; i++) {for (int j = 0; j < 6; j++) {a[i * 6 + j] = m(i, j);}}
  return a;
}
static rclcpp::Time at(int64_t ns) {return rclcpp::Time(ns, RCL_ROS_TIME);}

static void run_c15(vh::Case & c)
{
  vh::Rng & r = c.rng;
  shim::reset();
  rclcpp::Node node("monitor");
  const Warning warning(&node);
  ref::Settings set;
  const bool longrun = r.chance(0.002);       // as long as the node keeps it, and beyond
  set.history = static_cast<int>(longrun ? r.i(20, 50) : r.i(1, 8));
  if (longrun) {vh::count("long_histories");}
  set.pose_count = static_cast<int>(r.of({1L, 2L, 3L, 5L, static_cast<long>(r.i(1, 8))}));
  set.twist_count = static_cast<int>(r.of({1L, 2L, 3L, static_cast<long>(r.i(1, 8))}));
  set.pose_gate = r.of({1e4, 1e4, r.lg(0.1, 30)});
  set.twist_gate = r.of({1e4, 1e4, r.lg(0.1, 30)});
  const std::string frame = r.of({"map", "odom", "100%s"});
  PoseMeasurement poses(warning, frame, set.history, set.pose_gate, set.pose_count);
  TwistMeasurement twists(warning, set.history, set.twist_gate, set.twist_count);
  ref::Queue want_poses, want_twists;
  ref::V6 x0;
  x0 << r.u(-1000, 1000), r.u(-1000, 1000), ref::wrap(angle(r)), r.u(-0.1, 0.1), r.u(-20, 20), r.u(-1, 1);
  const ref::M6 p0 = spd(r, 6, 0.01, 10);
  auto ekf = std::make_shared<TimeDelayKalmanFilter>(x0, p0, set.history);
  ref::Filter want(x0, p0, set.history);
  int64_t now = r.of({1000LL, 1700000000LL}) * 1000000000LL;
  std::string log = vh::fmt("history %d pose count %d gate %g twist count %d gate %g x0 %s P0 %s", set.history, set.pose_count, set.pose_gate,
      set.twist_count, set.twist_gate, shown(x0).c_str(), shown(p0).c_str());
  c.mark(log);
  double scale = x0.norm() + 1, pscale = p0.norm();
  const double period = r.of({0.02, 0.1, 1., r.lg(0.01, 5)});
  const int ticks = static_cast<int>(longrun ? r.i(25, 60) : r.i(2, 14));
  int applied = 0;
  bool any = false;
  for (int t = 0; t < ticks; t++) {
    const int64_t step = r.chance(0.1) ? (r.chance(0.5) ? 0 : static_cast<int64_t>(period * 3e9)) : static_cast<int64_t>(period * 1e9);
    now += step;
    const double dt = static_cast<double>(step) / 1e9;
    const ref::V6 x = ekf->getLatestX();
    const ref::M6 A = ref::derivative(x, dt);
    ref::V6 q;
    q << 0, 0, std::pow(r.u(0, 0.1) * dt, 2), std::pow(0.01 * dt, 2), std::pow(r.u(0.1, 5) * dt, 2), std::pow(r.u(0.1, 1) * dt, 2);
    const ref::M6 Q = q.asDiagonal();
    const ref::V6 next = ref::motion(x, dt);
    ekf->predict(next, A, Q);
    want.predict(next, A, Q);
    log += vh::fmt(" | tick dt %.9f", dt);
    auto stamp = [&]() -> int64_t {
        switch (r.i(0, 9)) {
          case 0: return 0;
          case 1: return now + r.i(0, 5000000000LL);
          case 2: return now - r.i(0, 900) * 1000000000LL;
          case 3: return now;
          default: {
              const double steps = static_cast<double>(r.i(0, set.history)) + r.u(-0.4, 0.4);
              return now - static_cast<int64_t>(steps * (dt > 0 ? dt : period) * 1e9);
            }
        }
      };
    for (int k = static_cast<int>(r.of({0L, 1L, 1L, 2L, static_cast<long>(r.i(0, 4))})); k > 0; k--) {
      auto m = std::make_shared<PoseWithCovarianceStamped>();
      const int64_t ns = stamp();
      m->header.stamp = at(ns);
      m->header.frame_id = r.chance(0.8) ? frame : r.of({"", "world", "%n"});
      const ref::V6 now_x = want.x();
      const double spread = r.of({0.1, 1., 30., 0.});
      Vec y(3);
      y << now_x(0) + r.n() * spread, now_x(1) + r.n() * spread, ref::wrap(r.chance(0.7) ? now_x(2) + r.n() * r.of({0.2, 0.2, 0.}) : angle(r));
      if (r.chance(0.1)) {y(r.i(0, 2)) = r.of({static_cast<double>(NAN), static_cast<double>(INFINITY), -static_cast<double>(INFINITY)});}
      m->pose.pose.position.x = y(0);
      m->pose.pose.position.y = y(1);
      m->pose.pose.position.z = r.chance(0.05) ? NAN : r.n();
      m->pose.pose.orientation = orientation(r.u(-0.3, 0.3), r.u(-0.3, 0.3), y(2), r.of({1., 1., -1., 2., 0.5}));
      Mat R = r.chance(0.1) ? spd(r, 6, 10, 1000) : spd(r, 6, 0.01, 10);
      if (r.chance(0.05)) {R.row(0).fill(NAN); R.col(0).fill(NAN);}
      m->pose.covariance = covariance(R);
      Mat r3(3, 3);
      const int at3[3] = {0, 1, 5};
      for (int i = 0; i < 3; i++) {for (int j = 0; j < 3; j++) {r3(i, j) = R(at3[i], at3[j]);}}
      log += vh::fmt(" pose stamp %ld y %s R %s", ns - now, shown(y).c_str(), shown(r3).c_str());
      poses.Push(m);
      want_poses.push({ns, y, r3, true, 0});
    }
    for (int k = static_cast<int>(r.of({0L, 1L, 1L, 2L, static_cast<long>(r.i(0, 4))})); k > 0; k--) {
      auto m = std::make_shared<TwistWithCovarianceStamped>();
      const int64_t ns = stamp();
      m->header.stamp = at(ns);
      m->header.frame_id = r.chance(0.8) ? "base_link" : r.of({"", "world", "%s"});
      const ref::V6 now_x = want.x();
      Vec y(2);
      y << now_x(4) + r.n() * r.of({0.1, 3., 0.}), now_x(5) + r.n() * r.of({0.05, 1., 0.});
      if (r.chance(0.1)) {y(r.i(0, 1)) = r.of({static_cast<double>(NAN), static_cast<double>(INFINITY), -static_cast<double>(INFINITY)});}
      m->twist.twist.linear.x = y(0);
      m->twist.twist.linear.y = r.chance(0.05) ? NAN : r.n();
      m->twist.twist.linear.z = r.n();
      m->twist.twist.angular.x = r.n();
      m->twist.twist.angular.y = r.n();
      m->twist.twist.angular.z = y(1);
      Mat R = r.chance(0.1) ? spd(r, 6, 10, 1000) : spd(r, 6, 0.01, 10);
      if (r.chance(0.05)) {R.row(5).fill(NAN); R.col(5).fill(NAN);}
      m->twist.covariance = covariance(R);
      Mat r2(2, 2);
      r2 << R(0, 0), R(0, 5), R(5, 0), R(5, 5);
      log += vh::fmt(" twist stamp %ld y %s R %s", ns - now, shown(y).c_str(), shown(r2).c_str());
      twists.Push(m);
      want_twists.push({ns, y, r2, true, 0});
    }
    if (r.chance(0.05)) {
      poses.Clear();
      twists.Clear();
      want_poses.clear();
      want_twists.clear();
      log += " clear";
    }
    c.mark(static_cast<uint64_t>(now));
    vh::note(log);
    std::vector<Vec> before;
    for (int k = 0; k < set.history; k++) {before.push_back(ekf->getX(k));}
    const Mat p_before = ekf->getLatestP();
    ref::Tick tick;
    want_poses.process(want, now, dt, true, set.pose_count, set.pose_gate, tick);
    want_twists.process(want, now, dt, false, set.twist_count, set.twist_gate, tick);
    poses.Update(ekf, at(now), dt);
    twists.Update(ekf, at(now), dt);
    VH_CHECK(shim::bus().bad_formats.empty(), "format", "the log format '%s' asks for an argument", shim::bus().bad_formats[0].c_str());
    const double drift = want.drift(), drift_p = want.drift_p();
    if (!tick.sure || !(want.worst() < 1e5) || !(drift < 1e-4 * want.norm()) || !(drift_p < 1e-4 * want.pnorm())) {vh::count("undecided"); break;}
    scale = std::max(scale, want.norm() / std::sqrt(set.history) + 1);
    pscale = std::max(pscale, want.pnorm());
    if (tick.applied == 0) {
      for (int k = 0; k < set.history; k++) {
        VH_CHECK(ekf->getX(k) == before[k], "rejected-but-changed", "delay %d: %s, before %s", k, shown(ekf->getX(k)).c_str(), shown(before[k]).c_str());
      }
      VH_CHECK(ekf->getLatestP() == p_before, "rejected-but-changed", "covariance");
      if (tick.too_old + tick.gated + tick.not_finite + tick.no_gain > 0) {vh::count("ticks_all_rejected");}
    }
    for (int k = 0; k < set.history; k++) {
      Vec e = ekf->getX(k) - want.x(k);
      e(2) = ref::wrap(e(2));
      VH_CHECK(e.norm() <= 1e-8 * scale + 1e-8 * std::sqrt(pscale) + 30 * drift, k == 0 ? "state" : "delayed-state", "worst %g drift %g %g: delay %d: %s, expected %s (%d applied, %d too old, %d gated, %d not finite)", want.worst(), drift, drift_p,
        k, shown(ekf->getX(k)).c_str(), shown(want.x(k)).c_str(), tick.applied, tick.too_old, tick.gated, tick.not_finite);
    }
    VH_CHECK((ekf->getLatestP() - want.p()).norm() <= 1e-9 * want.pnorm() + 30 * drift_p, "covariance", "worst %g drift %g %g pnorm %g; %s, expected %s (%d applied)", want.worst(), drift, drift_p, want.pnorm(), shown(ekf->getLatestP()).c_str(), shown(want.p()).c_str(), tick.applied);
    vh::count("ticks_compared");
    vh::count("applied", tick.applied);
    vh::count("applied_delayed", tick.delayed);
    vh::count("too_old", tick.too_old);
    vh::count("gated", tick.gated);
    vh::count("not_finite", tick.not_finite);
    vh::count("gain_not_finite", tick.no_gain);
    vh::count("wrapped_yaw", tick.wrapped);
    applied += tick.applied;
    any = true;
  }
  c.nontrivial = any && applied > 0;
  c.desc = log.substr(0, 400);
}

void vh_case(vh::Case & c)
{
  const std::string & m = vh::opt().mode;
  if (m == "C13") {
    check_model(c);
    check_interval(c);
    check_gate(c);
    c.nontrivial = true;
    c.desc = vh::note_().substr(0, 300);
  } else {
    run_c15(c);
  }
}
}  // namespace monitor

void vh_case(vh::Case & c) {monitor::vh_case(c);}
