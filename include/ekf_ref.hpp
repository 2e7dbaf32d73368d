// Reference for the EKF localizer, written from its documentation: the motion model, a filter over the stacked
// history of states (one dense update per measurement), the measurement queues and the one-dimensional filters.
#ifndef VERIF_EKF_REF_HPP_
#define VERIF_EKF_REF_HPP_
#include <array>
#include <cmath>
#include <cstdint>
#include <deque>
#include <vector>
#include <eigen3/Eigen/Core>
#include <eigen3/Eigen/Dense>

namespace ref
{
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
using V6 = Eigen::Matrix<double, 6, 1>;
using M6 = Eigen::Matrix<double, 6, 6>;

inline double wrap(double a) {return std::remainder(a, 2 * M_PI);}

// x, y, yaw, yaw bias, vx, wz
inline V6 motion(const V6 & s, double dt)
{
  const double heading = s(2) + s(3), run = s(4) * dt;
  V6 r = s;
  r(0) += run * std::cos(heading);
  r(1) += run * std::sin(heading);
  r(2) = wrap(s(2) + s(5) * dt);
  return r;
}
inline M6 derivative(const V6 & s, double dt)
{
  const double heading = s(2) + s(3), c = std::cos(heading), n = std::sin(heading);
  M6 a = M6::Identity();
  for (int k : {2, 3}) {
    a(0, k) = -s(4) * dt * n;
    a(1, k) = s(4) * dt * c;
  }
  a(0, 4) = dt * c;
  a(1, 4) = dt * n;
  a(2, 5) = dt;
  return a;
}

// Next to the filter runs a twin whose covariances and states are shaken a little (some ten roundings) in each step: how far
// the two have drifted apart tells how much of the result is decided by rounding.
class Filter
{
public:
  Filter(const V6 & x, const M6 & p, int n) : n_(n), x_(6 * n), p_(6 * n, 6 * n)
  {
    for (int i = 0; i < n; i++) {
      x_.segment(6 * i, 6) = x;
      for (int j = 0; j < n; j++) {
        p_.block(6 * i, 6 * j, 6, 6).setZero();
        if (i == j) {p_.block(6 * i, 6 * j, 6, 6) = p;}
      }
    }
    tx_ = x_;
    tp_ = p_;
  }
  V6 twin(int delay = 0) const {return tx_.segment(6 * delay, 6);}
  M6 twin_p(int delay = 0) const {return tp_.block(6 * delay, 6 * delay, 6, 6);}
  // uncertainty of the numbers, all states of the history together
  double worst() const {return worst_;}       // how many times smaller than the largest variance an innovation's was
  double drift() const {return (x_ - tx_).norm();}
  double drift_p() const {return (p_ - tp_).topLeftCorner(6, 6).norm();}
  V6 x(int delay = 0) const {return x_.segment(6 * delay, 6);}
  M6 p(int delay = 0) const {return p_.block(6 * delay, 6 * delay, 6, 6);}
  void predict(const V6 & next, const M6 & a, const M6 & q)
  {
    const int m = 6 * (n_ - 1);
    Mat p2(6 * n_, 6 * n_);
    Vec x2(6 * n_);
    const Mat cross = a * p_.topRows(6);
    p2.block(0, 0, 6, 6) = cross.leftCols(6) * a.transpose() + q;
    if (m > 0) {
      p2.block(0, 6, 6, m) = cross.leftCols(m);
      p2.block(6, 0, m, 6) = cross.leftCols(m).transpose();
      p2.block(6, 6, m, m) = p_.block(0, 0, m, m);
      x2.tail(m) = x_.head(m);
    }
    x2.head(6) = next;
    Vec t2(6 * n_);
    t2.tail(m) = tx_.head(m);
    t2.head(6) = next + a * (tx_.head(6) - x_.head(6));
    Mat tp2(6 * n_, 6 * n_);
    const Mat tcross = a * tp_.topRows(6);
    tp2.block(0, 0, 6, 6) = tcross.leftCols(6) * a.transpose() + q;
    if (m > 0) {
      tp2.block(0, 6, 6, m) = tcross.leftCols(m);
      tp2.block(6, 0, m, 6) = Mat(tp_.leftCols(6) * a.transpose()).topRows(m);
      tp2.block(6, 6, m, m) = tp_.block(0, 0, m, m);
    }
    x_ = x2;
    p_ = p2;
    tx_ = t2;
    tp_ = tp2;
    shake(6);
  }
  // false: the gain is not finite. sure is cleared if rounding decides.
  bool update(const Vec & y, const Mat & c, const Mat & r, int delay, bool & sure)
  {
    const Mat pd = p_.middleCols(6 * delay, 6) * c.transpose();
    const Mat s = c * pd.middleRows(6 * delay, 6) + r;
    if (!s.allFinite()) {return false;}
    const Eigen::JacobiSVD<Mat> svd(s);
    const auto sv = svd.singularValues();
    if (!(sv(sv.size() - 1) > 1e-9 * std::max(sv(0), pnorm()))) {sure = false; return false;}
    worst_ = std::max(worst_, p_.diagonal().maxCoeff() / sv(sv.size() - 1));
    shake(6 * n_);
    const Mat tpd = tp_.middleCols(6 * delay, 6) * c.transpose();
    const Mat ts = c * tpd.middleRows(6 * delay, 6) + r;
    const Mat tk = tpd * Eigen::PartialPivLU<Mat>(ts).inverse();
    tx_ += Vec(tk * (y - c * twin(delay)));
    tp_ -= Mat(tk * (c * tp_.middleRows(6 * delay, 6)));
    const Mat k = pd * Eigen::PartialPivLU<Mat>(s).inverse();
    x_ += k * (y - c * x(delay));
    p_ -= Mat(k * (c * p_.middleRows(6 * delay, 6)));
    p_ = Mat((p_ + p_.transpose()) / 2);
    return true;
  }
  double norm() const {return x_.norm();}
  double pnorm() const {return p_.topLeftCorner(6, 6).norm();}
  int n() const {return n_;}

private:
  double unit()      // in [-1, 1)
  {
    seed_ = seed_ * 6364136223846793005ULL + 1442695040888963407ULL;
    return static_cast<double>(static_cast<int64_t>(seed_) >> 11) / 4503599627370496.0;
  }
  void shake(int rows)
  {
    const double e = 3e-15;
    Vec d(p_.rows());
    for (int i = 0; i < d.size(); i++) {d(i) = std::sqrt(std::max(0., tp_(i, i)));}
    for (int i = 0; i < rows; i++) {
      tx_(i) += e * unit() * std::abs(tx_(i));
      for (int j = 0; j < d.size(); j++) {      // each on its own: rounding does not keep the symmetry either
        tp_(i, j) += e * unit() * d(i) * d(j);
        if (j >= rows) {tp_(j, i) += e * unit() * d(i) * d(j);}
      }
    }
  }
  int n_;
  double worst_ = 0;
  Vec x_, tx_;
  Mat p_, tp_;
  uint64_t seed_ = 88172645463325252ULL;
};

struct Settings
{
  int history = 50, pose_count = 5, twist_count = 2;
  double pose_gate = 10000, twist_gate = 10000;
};

struct Measurement
{
  int64_t stamp_ns;
  Vec y;
  Mat r;
  bool yaw_known = true;      // false: the heading of this orientation is not defined
  int uses = 0;
};

// What happened to the messages of one tick.
struct Tick
{
  bool sure = true;
  int applied = 0, too_old = 0, gated = 0, not_finite = 0, no_gain = 0, wrapped = 0, delayed = 0;
};

class Queue
{
public:
  void push(Measurement m) {pending_.push_back(std::move(m));}
  void clear() {pending_.clear();}
  size_t size() const {return pending_.size();}

  void process(Filter & f, int64_t now_ns, double dt, bool pose, int count, double gate, Tick & t)
  {
    const size_t n = pending_.size();
    for (size_t i = 0; i < n; i++) {
      Measurement m = pending_.front();
      pending_.pop_front();
      m.uses++;
      if (m.uses < count) {pending_.push_back(m);}
      apply(f, m, now_ns, dt, pose, count, gate, t);
    }
  }

private:
  static void apply(
    Filter & f, const Measurement & m, int64_t now_ns, double dt, bool pose, int count, double gate, Tick & t)
  {
    const double delay = static_cast<double>(now_ns - m.stamp_ns) / 1e9;
    double steps = 0;
    if (delay > 0) {
      steps = dt > 0 ? delay / dt : INFINITY;
      const double frac = steps - std::floor(steps);
      if (steps < 1e6 && std::abs(frac - 0.5) < 1e-3) {t.sure = false;}
      steps = std::floor(steps + 0.5);
    }
    if (steps >= f.n()) {t.too_old++; return;}
    if (!m.yaw_known) {t.sure = false;}
    if (!m.y.allFinite()) {t.not_finite++; return;}
    const int d = static_cast<int>(steps);
    const int k = pose ? 0 : 4, h = pose ? 3 : 2;
    Vec e = m.y - f.x(d).segment(k, h);
    if (pose) {
      if (std::abs(e(2)) > M_PI) {t.wrapped++;}
      e(2) = wrap(e(2));
      if (std::abs(e(2)) > M_PI - 1e-6) {t.sure = false;}
    }
    const Mat p = f.p().block(k, k, h, h);
    const Eigen::JacobiSVD<Mat> svd(p);
    const auto sv = svd.singularValues();
    const double cond = sv(h - 1) > 0 ? sv(0) / sv(h - 1) : INFINITY;
    if (!(cond < 1e9) || !(sv(h - 1) > 1e-11 * f.pnorm())) {t.sure = false;}
    const double d2 = e.dot(Vec(Eigen::PartialPivLU<Mat>(p).solve(e))), g2 = gate * gate;
    Vec et = e - (f.twin(d) - f.x(d)).segment(k, h);
    const double d2t = et.dot(Vec(Eigen::PartialPivLU<Mat>(Mat(f.twin_p().block(k, k, h, h))).solve(et)));
    if (!(d2 >= 0) || !(std::abs(d2 - g2) > std::max(1e-6, cond * 1e-13) * g2 + 30 * std::abs(d2 - d2t))) {t.sure = false;}
    if (!(d2 <= g2)) {t.gated++; return;}
    Mat c = Mat::Zero(h, 6);
    for (int j = 0; j < h; j++) {c(j, k + j) = 1;}
    const Vec y = f.x(d).segment(k, h) + e;
    if (f.update(y, c, m.r * count, d, t.sure)) {t.applied++; t.delayed += d > 0;} else {t.no_gain++;}
  }
  std::deque<Measurement> pending_;
};

// height, roll and pitch
class OneD
{
public:
  explicit OneD(double noise) : noise_(noise) {}
  void observe(double z, double stddev, int64_t stamp_ns)
  {
    if (!std::isfinite(z) || !std::isfinite(stddev)) {return;}
    const double r = stddev * stddev;
    if (!known_) {
      known_ = true;
      x_ = z;
      v_ = r;
    } else {
      const double dt = static_cast<double>(stamp_ns - last_) / 1e9;
      v_ += noise_ * noise_ * dt * dt;
      if (v_ > 1e7 * r) {sure_ = false;}       // the remaining variance is lost to rounding in the usual form
      if (v_ + r > 0) {
        x_ = (x_ * r + z * v_) / (v_ + r);
        v_ = v_ * r / (v_ + r);
      } else {
        sure_ = false;      // two exact observations that may contradict each other
      }
    }
    last_ = stamp_ns;
  }
  void restart() {known_ = false; sure_ = true; x_ = 0; v_ = 0;}
  double x() const {return x_;}
  bool sure() const {return sure_;}
  void unsure() {sure_ = false;}

private:
  double noise_, x_ = 0, v_ = 0;
  int64_t last_ = 0;
  bool known_ = false, sure_ = true;
};

// independent of tf2: angles of R = Rz(yaw) Ry(pitch) Rx(roll)
inline bool angles(double x, double y, double z, double w, double & roll, double & pitch, double & yaw)
{
  const double n2 = x * x + y * y + z * z + w * w;
  if (!(n2 > 0) || !std::isfinite(n2)) {return false;}
  const double s = 2 / n2;
  const double r00 = 1 - s * (y * y + z * z), r10 = s * (x * y + z * w), r20 = s * (x * z - y * w);
  const double r21 = s * (y * z + x * w), r22 = 1 - s * (x * x + y * y);
  pitch = std::atan2(-r20, std::hypot(r00, r10));
  if (std::abs(pitch) > 1.5) {return false;}       // gimbal lock: the split is not unique
  roll = std::atan2(r21, r22);
  yaw = std::atan2(r10, r00);
  return true;
}
}  // namespace ref
#endif  // VERIF_EKF_REF_HPP_
