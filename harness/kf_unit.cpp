// The Kalman filters against the batch solution: all states of the history are written as linear functions of
// independent noises, all measurements are conditioned on at once (no recursion, in long double).
// modes: C11 (time-delay filter), C12 (linear filter)
#include "vh.hpp"
#include <memory>
#include <eigen3/Eigen/Core>
#include <eigen3/Eigen/LU>
#include <eigen3/Eigen/SVD>
#include <eigen3/Eigen/Cholesky>
#include <eigen3/Eigen/Eigenvalues>
#include "kalman_filter/kalman_filter.hpp"
#include "kalman_filter/time_delay_kalman_filter.hpp"

namespace monitor
{
using L = long double;
using MatL = Eigen::Matrix<L, Eigen::Dynamic, Eigen::Dynamic>;
using VecL = Eigen::Matrix<L, Eigen::Dynamic, 1>;
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;

static std::string shown(const Mat & m)
{
  std::string s;
  for (int i = 0; i < m.rows(); i++) {
    for (int j = 0; j < m.cols(); j++) {s += vh::fmt("%.12g ", m(i, j));}
    if (m.cols() > 1) {s += "; ";}
  }
  return s;
}

class Batch
{
public:
  // adds an independent noise block, returns its first column
  int noise(const Mat & cov)
  {
    const int at = n_;
    n_ += static_cast<int>(cov.rows());
    blocks_.push_back({at, cov.cast<L>()});
    return at;
  }
  struct Var {VecL m; MatL g;};     // value = m + g * noises (g has as many columns as existed then)
  Var fresh(const Vec & mean, const Mat & cov)
  {
    const int at = noise(cov);
    Var v{mean.cast<L>(), MatL::Zero(mean.size(), n_)};
    for (int k = 0; k < mean.size(); k++) {v.g(k, at + k) = 1;}
    return v;
  }
  Var next(const Var & x, const Mat & A, const VecL & b, const Mat & Q)
  {
    const int at = noise(Q);
    Var v{A.cast<L>() * x.m + b, MatL::Zero(A.rows(), n_)};
    v.g.leftCols(x.g.cols()) = A.cast<L>() * x.g;
    for (int k = 0; k < A.rows(); k++) {v.g(k, at + k) += 1;}
    return v;
  }
  void measure(const Var & x, const Vec & y, const Mat & C, const Mat & R)
  {
    meas_.push_back({C.cast<L>() * x.m, C.cast<L>() * x.g, y.cast<L>(), R.cast<L>()});
  }
  void posterior(const Var & x, Vec & mean, Mat & cov)
  {
    int h = 0;
    for (const auto & z : meas_) {h += static_cast<int>(z.y.size());}
    const auto times_s = [this](const MatL & g) {       // the noises are independent blocks
        MatL p(g.rows(), n_);
        for (const auto & b : blocks_) {p.middleCols(b.at, b.cov.cols()) = g.middleCols(b.at, b.cov.rows()) * b.cov;}
        return p;
      };
    MatL gx = MatL::Zero(x.g.rows(), n_);
    gx.leftCols(x.g.cols()) = x.g;
    const MatL gxS = times_s(gx);
    if (h == 0) {
      mean = x.m.cast<double>();
      cov = (gxS * gx.transpose()).cast<double>();
      return;
    }
    MatL H = MatL::Zero(h, n_), R = MatL::Zero(h, h);
    VecL d(h);
    int at = 0;
    for (const auto & z : meas_) {
      const int k = static_cast<int>(z.y.size());
      H.block(at, 0, k, z.g.cols()) = z.g;
      R.block(at, at, k, k) = z.r;
      d.segment(at, k) = z.y - z.m;
      at += k;
    }
    const MatL HS = times_s(H);
    const MatL Y = HS * H.transpose() + R;
    const Eigen::PartialPivLU<MatL> lu(Y);
    const MatL XY = gxS * H.transpose();
    mean = (x.m + XY * lu.solve(d)).cast<double>();
    cov = (gxS * gx.transpose() - XY * lu.solve(MatL(XY.transpose()))).cast<double>();
  }
  size_t measurements() const {return meas_.size();}

private:
  struct Block {int at; MatL cov;};
  struct Meas {VecL m; MatL g; VecL y; MatL r;};
  int n_ = 0;
  std::vector<Block> blocks_;
  std::vector<Meas> meas_;
};

static Mat random_matrix(vh::Rng & r, int rows, int cols, double s = 1)
{
  Mat m(rows, cols);
  for (int i = 0; i < rows; i++) {for (int j = 0; j < cols; j++) {m(i, j) = r.chance(0.2) ? 0. : r.n() * s;}}
  return m;
}
static Vec random_vector(vh::Rng & r, int n, double s = 1) {return random_matrix(r, n, 1, s);}
// symmetric positive definite with moderate condition number
static Mat spd(vh::Rng & r, int n, double lo, double hi)
{
  const Mat B = random_matrix(r, n, n);
  Mat m = B * B.transpose() / n + Mat::Identity(n, n) * 0.3;
  m *= r.lg(lo, hi);
  return (m + m.transpose()) / 2;
}
// noise covariance, often singular
static Mat noise(vh::Rng & r, int n, double lo, double hi)
{
  Mat q = spd(r, n, lo, hi);
  if (r.chance(0.5)) {
    for (int k = 0; k < n; k++) {if (r.chance(0.4)) {q.row(k).setZero(); q.col(k).setZero();}}
  }
  if (r.chance(0.1)) {q.setZero();}
  return q;
}
// transition that neither explodes nor dies out over some dozen steps
static Mat transition(vh::Rng & r, int n, bool bounded = false)
{
  Mat a = Mat::Identity(n, n) + random_matrix(r, n, n, 0.3);
  if (r.chance(0.3)) {a = random_matrix(r, n, n, 0.7);}
  const double s = a.norm() / std::sqrt(static_cast<double>(n));
  if (s > 1.1) {a *= 1.1 / s;}
  if (bounded) {      // for long histories: no unobserved growth over hundreds of steps
    const double g = Eigen::JacobiSVD<Mat>(a).singularValues()(0);
    if (g > 1) {a /= g;}
    if (r.chance(0.6)) {      // what is known of the oldest state reaches the newest
      const Eigen::HouseholderQR<Mat> qr(a + Mat::Identity(n, n));
      a = r.chance(0.5) ? Mat(Mat::Identity(n, n)) : Mat(qr.householderQ());
    }
  }
  return a;
}
// error that is attributable to rounding
static double tolerance(double scale) {return 1e-7 * scale;}
// the unit the states are measured in
static double random_unit(vh::Rng & r) {return r.chance(0.6) ? 1 : r.lg(1e-5, 1e3);}

// ------------------------------------------------------------------ C11
static void run_c11(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const int d = static_cast<int>(r.i(1, 6)), n_short = static_cast<int>(r.chance(0.3) ? r.i(1, 2) : r.i(1, 9));
  const bool longrun = r.chance(0.01);        // a history as long as the node keeps it, filled and shifted
  const int n = longrun ? static_cast<int>(r.i(10, 60)) : n_short;
  const int steps = static_cast<int>(longrun ? r.i(n / 2, 3 * n) : r.i(1, 30));
  const size_t most = longrun ? 40 : 14;
  if (longrun) {vh::count("long_histories");}
  const double u = random_unit(r), u2 = u * u;
  const Vec x0 = random_vector(r, d, 3 * u);
  const Mat P0 = spd(r, d, 0.01 * u2, 100 * u2);
  TimeDelayKalmanFilter f(x0, P0, n);
  Batch b;
  std::vector<Batch::Var> stack;        // newest first
  for (int k = 0; k < n; k++) {stack.push_back(b.fresh(x0, P0));}
  std::string log = vh::fmt("d %d n %d x0 %s P0 %s", d, n, shown(x0).c_str(), shown(P0).c_str());
  double scale = x0.norm() + u, pscale = P0.norm();
  c.mark(static_cast<uint64_t>(d * 100 + n));
  int predictions = 0, updates = 0, delayed = 0;
  for (int s = 0; s <= steps; s++) {
    vh::note(log);
    // what the monitor sees
    if (s == steps || s < 2 || r.chance(longrun ? 0.02 : 0.25)) {
      for (int k = 0; k < n; k++) {
        if (longrun && k > 0 && k < n - 1 && !r.chance(0.2)) {continue;}
        Vec m;
        Mat P;
        b.posterior(stack[k], m, P);
        const Vec got = f.getX(k);
        VH_CHECK(got.size() == d, "delayed-size", "%ld", got.size());
        VH_CHECK((got - m).norm() <= tolerance(scale), k == 0 ? "state" : "delayed-state", "delay %d: %s, expected %s", k, shown(got).c_str(), shown(m).c_str());
        if (k == 0) {
          const Vec x = f.getLatestX();
          VH_CHECK(x == got, "latest-state", "%s, getX(0) %s", shown(x).c_str(), shown(got).c_str());
          const Mat G = f.getLatestP();
          VH_CHECK(G.rows() == d && G.cols() == d, "covariance-size", "%ld", G.rows());
          VH_CHECK((G - P).norm() <= tolerance(pscale), "covariance", "%s, expected %s", shown(G).c_str(), shown(P).c_str());
          VH_CHECK((G - G.transpose()).norm() <= tolerance(pscale), "covariance-symmetry", "%s", shown(G).c_str());
          const Eigen::SelfAdjointEigenSolver<Mat> es((G + G.transpose()) / 2);
          VH_CHECK(es.eigenvalues().minCoeff() >= -tolerance(pscale), "covariance-semidefinite", "smallest eigenvalue %g", es.eigenvalues().minCoeff());
        }
      }
      vh::count("histories_compared");
    }
    if (s == steps) {break;}
    const double what = r.u();
    if (what < 0.45) {
      const Mat A = transition(r, d, longrun), Q = noise(r, d, 1e-3 * u2, u2);
      const Vec off = random_vector(r, d, u);
      log += vh::fmt(" | predict A %s Q %s offset %s", shown(A).c_str(), shown(Q).c_str(), shown(off).c_str());
      vh::note(log);
      f.predict(A * f.getLatestX() + off, A, Q);
      stack.insert(stack.begin(), b.next(stack[0], A, off.cast<L>(), Q));
      stack.pop_back();
      predictions++;
      pscale = std::max(pscale, f.getLatestP().norm());
      scale = std::max(scale, f.getLatestX().norm());
    } else if (what < 0.9 && b.measurements() < most && (!longrun || r.chance(0.5))) {
      const int h = static_cast<int>(r.i(1, std::min(d + 1, 4))), delay = static_cast<int>(r.chance(0.25) ? n - 1 : r.i(0, n - 1));
      const Mat C = random_matrix(r, h, d), R = spd(r, h, 0.01 * u2, 10 * u2);
      const Vec y = random_vector(r, h, 5 * u);
      log += vh::fmt(" | update delay %d C %s R %s y %s", delay, shown(C).c_str(), shown(R).c_str(), shown(y).c_str());
      vh::note(log);
      f.update(y, C, R, delay);
      b.measure(stack[delay], y, C, R);
      updates++;
      delayed += delay > 0;
      scale = std::max(scale, f.getLatestX().norm() + y.norm());
      c.mark(y(0));
    } else {
      // rejected requests change nothing
      std::vector<Vec> before;
      for (int k = 0; k < n; k++) {before.push_back(f.getX(k));}
      const Mat P = f.getLatestP();
      const int h = static_cast<int>(r.i(1, 2)), kind = static_cast<int>(r.i(0, 3));
      Mat C = random_matrix(r, h, d), R = spd(r, h, 0.01 * u2, 10 * u2);
      Vec y = random_vector(r, h, u);
      int delay = static_cast<int>(r.i(0, n - 1));
      if (kind == 0) {delay = n + static_cast<int>(r.of({0, 0, 1, 100, 1000000}));
      } else if (kind == 1) {C.setZero(); R.setZero();                 // the gain is 0/0
      } else if (kind == 2) {R(0, 0) = NAN;
      } else {C(0, 0) = r.of({NAN, INFINITY});}
      vh::note(log + vh::fmt(" | rejected kind %d delay %d C %s R %s", kind, delay, shown(C).c_str(), shown(R).c_str()));
      bool thrown = false;
      try {f.update(y, C, R, delay);} catch (const std::invalid_argument &) {thrown = true;}
      VH_CHECK(thrown, kind == 0 ? "delay-accepted" : "gain-accepted", "no exception");
      for (int k = 0; k < n; k++) {VH_CHECK(f.getX(k) == before[k], "rejected-but-changed", "delay %d", k);}
      VH_CHECK(f.getLatestP() == P, "rejected-but-changed", "covariance");
      vh::count(kind == 0 ? "delays_rejected" : "gains_rejected");
    }
  }
  vh::count("predictions", predictions);
  vh::count("updates", updates);
  vh::count("delayed_updates", delayed);
  c.nontrivial = predictions > 0 && updates > 0;
  c.desc = log.substr(0, 400);
}

// ------------------------------------------------------------------ C12
static void run_c12(vh::Case & c)
{
  vh::Rng & r = c.rng;
  const int d = static_cast<int>(r.i(1, 6)), u = static_cast<int>(r.i(1, 3)), h = static_cast<int>(r.i(1, 4));
  const double un = random_unit(r), u2 = un * un;
  Vec x0 = random_vector(r, d, 3 * un);
  Mat P0 = spd(r, d, 0.01 * u2, 100 * u2);
  const bool longrun = r.chance(0.01);
  const Mat A = transition(r, d, longrun), B = random_matrix(r, d, u, un), Q = noise(r, d, 1e-3 * u2, u2);
  Mat C = random_matrix(r, h, d), R = spd(r, h, 0.01 * u2, 10 * u2);
  const bool broken = r.chance(0.08);       // no update can ever be valid
  if (broken) {
    if (r.chance(0.5)) {C.setZero(); R.setZero();} else {R(static_cast<int>(r.i(0, h - 1)), 0) = NAN;}
  }
  std::string log = vh::fmt("d %d x0 %s P0 %s A %s B %s C %s Q %s R %s", d, shown(x0).c_str(), shown(P0).c_str(), shown(A).c_str(), shown(B).c_str(),
      shown(C).c_str(), shown(Q).c_str(), shown(R).c_str());
  vh::note(log);
  c.mark(log);
  KalmanFilter f(x0, A, B, C, Q, R, P0);
  auto b = std::make_unique<Batch>();
  Batch::Var x = b->fresh(x0, P0);
  double scale = x0.norm() + un;
  const int steps = static_cast<int>(longrun ? r.i(60, 300) : r.i(1, 30));
  if (longrun) {vh::count("long_histories");}
  int predictions = 0, updates = 0;
  auto state = [&] {
      Vec v(d);
      for (int k = 0; k < d; k++) {v(k) = f.getXelement(k);}
      return v;
    };
  auto compare = [&] {
      Vec m;
      Mat P;
      b->posterior(x, m, P);
      const Vec got = state();
      VH_CHECK((got - m).norm() <= tolerance(scale), "state", "%s, expected %s", shown(got).c_str(), shown(m).c_str());
      vh::count("histories_compared");
    };
  for (int s = 0; s < steps; s++) {
    if (s < 3 || r.chance(longrun ? 0.03 : 0.3)) {vh::note(log); compare();}
    const double what = r.u();
    if (what < 0.25) {
      const Vec in = random_vector(r, u);
      log += vh::fmt(" | predict %s", shown(in).c_str());
      vh::note(log);
      f.predict(in);
      x = b->next(x, A, (B * in).cast<L>(), Q);
      predictions++;
    } else if (what < 0.45) {
      const Mat A2 = transition(r, d, longrun), B2 = random_matrix(r, d, u, un), Q2 = noise(r, d, 1e-3 * u2, u2);
      const Vec in = random_vector(r, u);
      log += vh::fmt(" | predict %s with A %s B %s Q %s", shown(in).c_str(), shown(A2).c_str(), shown(B2).c_str(), shown(Q2).c_str());
      vh::note(log);
      f.predict(in, A2, B2, Q2);
      x = b->next(x, A2, (B2 * in).cast<L>(), Q2);
      predictions++;
    } else if (what < 0.9 && b->measurements() < (longrun ? 60 : 14)) {
      const Vec y = random_vector(r, h, 5 * un);
      log += vh::fmt(" | update %s", shown(y).c_str());
      vh::note(log);
      const Vec before = state();
      bool thrown = false;
      try {f.update(y);} catch (const std::invalid_argument &) {thrown = true;}
      VH_CHECK(thrown == broken, "gain", "%s", thrown ? "refused" : "accepted");
      if (broken) {
        VH_CHECK(state() == before, "refused-but-changed", "state");
        vh::count("gains_rejected");
      } else {
        b->measure(x, y, C, R);
        updates++;
        scale = std::max(scale, y.norm());
      }
    } else if (what > (longrun ? 0.995 : 0.94)) {
      x0 = random_vector(r, d, 3 * un);
      P0 = spd(r, d, 0.01 * u2, 100 * u2);
      const bool bad = !broken && r.chance(0.4);
      if (bad) {                             // nothing finite can come out of this one
        Mat P1 = P0;
        P1(0, 0) = INFINITY;
        Vec x1 = x0;
        f.init(x1, P1);
        const Vec y = random_vector(r, h, 5 * un);
        if (C.col(0).norm() > 0) {
          const Vec before = state();
          bool thrown = false;
          try {f.update(y);} catch (const std::invalid_argument &) {thrown = true;}
          VH_CHECK(thrown && state() == before, "infinite-gain", "%s", thrown ? "state changed" : "accepted");
          vh::count("gains_rejected");
        }
      }
      log += vh::fmt(" | init %s P %s", shown(x0).c_str(), shown(P0).c_str());
      vh::note(log);
      f.init(x0, P0);
      b = std::make_unique<Batch>();
      x = b->fresh(x0, P0);
      vh::count("reinitialised");
    }
    scale = std::max(scale, state().norm());
  }
  vh::note(log);
  compare();
  vh::count("predictions", predictions);
  vh::count("updates", updates);
  c.nontrivial = predictions > 0 && updates > 0;
  c.desc = log.substr(0, 400);
}

void vh_case(vh::Case & c)
{
  if (vh::opt().mode == "C11") {run_c11(c);} else {run_c12(c);}
}
}  // namespace monitor

void vh_case(vh::Case & c) {monitor::vh_case(c);}
