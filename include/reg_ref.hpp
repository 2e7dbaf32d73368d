// Independent reference for the registration: neighbours, residuals, robust weights, Gauss-Newton step.
#ifndef VERIF_REG_REF_HPP_
#define VERIF_REG_REF_HPP_
#include "vh.hpp"
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <algorithm>
#include <numeric>
#include <vector>

namespace reg
{
using LD = long double;
using MatL = Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic>;
using VecL = Eigen::Matrix<LD, Eigen::Dynamic, 1>;
using Vec3L = Eigen::Matrix<LD, 3, 1>;
using Vec6 = Eigen::Matrix<double, 6, 1>;
using Mats = std::vector<Eigen::MatrixXd>;
using Vecs = std::vector<Eigen::VectorXd>;

inline Eigen::Vector3d random_unit(vh::Rng & r)
{
  for (;;) {
    const Eigen::Vector3d v(r.n(), r.n(), r.n());
    if (v.norm() > 1e-3) {return v.normalized();}
  }
}
inline Eigen::Quaterniond random_rotation(vh::Rng & r)
{
  for (;;) {
    Eigen::Quaterniond q(r.n(), r.n(), r.n(), r.n());
    if (q.norm() > 1e-3) {return q.normalized();}
  }
}
inline Eigen::Quaterniond rotation_by(const Eigen::Vector3d & v)
{
  const double a = v.norm();
  if (a == 0) {return Eigen::Quaterniond::Identity();}
  return Eigen::Quaterniond(Eigen::AngleAxisd(a, v / a));
}
inline Eigen::Isometry3d pose_of(const Eigen::Quaterniond & q, const Eigen::Vector3d & t)
{
  Eigen::Isometry3d p = Eigen::Isometry3d::Identity();
  p.linear() = q.toRotationMatrix();
  p.translation() = t;
  return p;
}
inline double rotation_between(const Eigen::Isometry3d & a, const Eigen::Isometry3d & b)
{
  const Eigen::Matrix3d R = a.linear().transpose() * b.linear();
  const Eigen::Vector3d v(R(2, 1) - R(1, 2), R(0, 2) - R(2, 0), R(1, 0) - R(0, 1));
  return std::atan2(v.norm(), R.trace() - 1.);
}
// derivative of (q p q*) by the four components of q, written out from the rotation matrix
inline Eigen::Matrix<double, 3, 4> rotation_derivative(const Eigen::Quaterniond & q, const Eigen::Vector3d & p)
{
  const double w = q.w(), x = q.x(), y = q.y(), z = q.z();
  Eigen::Matrix3d W, X, Y, Z;
  W << w, -z, y, z, w, -x, -y, x, w;
  X << x, y, z, y, -x, -w, z, w, -x;
  Y << -y, x, w, x, y, z, -w, z, -y;
  Z << -z, -w, x, w, -z, y, x, y, z;
  Eigen::Matrix<double, 3, 4> D;
  D << 2 * W * p, 2 * X * p, 2 * Y * p, 2 * Z * p;
  return D;
}
// derivative of q (x) exp(theta) by theta at zero
inline Eigen::Matrix<double, 4, 3> tangent(const Eigen::Quaterniond & q)
{
  Eigen::Matrix<double, 4, 3> T;
  T << -q.x(), -q.y(), -q.z(),
    q.w(), -q.z(), q.y(),
    q.z(), q.w(), -q.x(),
    -q.y(), q.x(), q.w();
  return 0.5 * T;
}
inline Eigen::Matrix<double, 7, 6> tangent7(const Eigen::Quaterniond & q)
{
  Eigen::Matrix<double, 7, 6> M = Eigen::Matrix<double, 7, 6>::Zero();
  M.block<4, 3>(0, 0) = tangent(q);
  M.block<3, 3>(4, 3) = Eigen::Matrix3d::Identity();
  return M;
}

struct Neighbours {std::vector<int> rows; std::vector<double> d2; double gap;};
// the k nearest rows; gap: distance by which the next row is farther (infinite when there is none)
inline Neighbours nearest(const Eigen::MatrixXd & map, const Eigen::VectorXd & q, int k)
{
  std::vector<std::pair<double, int>> d(map.rows());
  for (int i = 0; i < map.rows(); i++) {d[i] = {(map.row(i).transpose() - q).squaredNorm(), i};}
  std::sort(d.begin(), d.end());
  Neighbours n;
  const int m = std::min<int>(k, static_cast<int>(map.rows()));
  for (int i = 0; i < m; i++) {n.rows.push_back(d[i].second); n.d2.push_back(d[i].first);}
  n.gap = m < map.rows() && m > 0 ? std::sqrt(d[m].first) - std::sqrt(d[m - 1].first) : INFINITY;
  return n;
}
inline Eigen::MatrixXd rows_of(const Eigen::MatrixXd & m, const std::vector<int> & rows)
{
  Eigen::MatrixXd X(rows.size(), m.cols());
  for (size_t i = 0; i < rows.size(); i++) {X.row(i) = m.row(rows[i]);}
  return X;
}

struct Line {Eigen::Vector3d mean, direction; double ratio;};   // ratio of the second to the first eigenvalue
inline Line fit_line(const Eigen::MatrixXd & X)
{
  Line l;
  l.mean = X.leftCols(3).colwise().mean().transpose();
  const Eigen::MatrixXd D = X.leftCols(3).rowwise() - l.mean.transpose();
  const Eigen::JacobiSVD<Eigen::MatrixXd> svd(D, Eigen::ComputeFullV);
  const Eigen::VectorXd s = svd.singularValues();
  l.direction = svd.matrixV().col(0);
  l.ratio = s.size() < 2 || s(0) == 0 ? (s.size() < 2 ? 0. : 1.) : (s(1) * s(1)) / (s(0) * s(0));
  if (s.size() == 0 || s(0) == 0) {l.ratio = 1.;}
  return l;
}
struct Plane {Eigen::Vector3d w; double cond;};
// least-squares solution of X w = -1
inline Plane fit_plane(const Eigen::MatrixXd & X)
{
  const Eigen::JacobiSVD<MatL> svd(X.leftCols(3).cast<LD>(), Eigen::ComputeThinU | Eigen::ComputeThinV);
  const VecL s = svd.singularValues();
  Plane p;
  p.cond = s.size() < 3 || s(2) <= 0 ? INFINITY : static_cast<double>(s(0) / s(2));
  p.w = svd.solve(VecL::Constant(X.rows(), LD(-1))).cast<double>();
  return p;
}

inline double median(std::vector<double> v)
{
  std::sort(v.begin(), v.end());
  const size_t n = v.size();
  return n % 2 ? v[n / 2] : (v[n / 2 - 1] + v[n / 2]) / 2.;
}
inline std::vector<double> errors_of(const Vecs & r)
{
  std::vector<double> e;
  for (const auto & x : r) {
    LD s = 0;
    for (int k = 0; k < x.size(); k++) {s += static_cast<LD>(x(k)) * x(k);}
    e.push_back(static_cast<double>(s));
  }
  return e;
}
inline double scale_of(const std::vector<double> & e)
{
  const double m = median(e);
  std::vector<double> d;
  for (double x : e) {d.push_back(std::abs(x - m));}
  return 1.482602218505602 * median(d);
}
inline double weight_of(double normalized, double k = 1.345)
{
  return normalized < k * k ? 1. : k / std::sqrt(normalized);
}
inline std::vector<double> weights_of(const std::vector<double> & e, double scale)
{
  std::vector<double> w;
  for (double x : e) {w.push_back(weight_of(x / (scale + 1e-16)));}
  return w;
}

struct Step
{
  Vec6 dx; double cond; double smallest;   // smallest: least eigenvalue of the unweighted system in absolute value
  MatL H; VecL g;
};
inline Step gauss_newton(
  const Eigen::Matrix<double, 7, 6> & M, const std::vector<double> & w, const Mats & J, const Vecs & r)
{
  MatL D = MatL::Zero(7, 7), A = MatL::Zero(7, 7);
  VecL b = VecL::Zero(7);
  for (size_t i = 0; i < J.size(); i++) {
    const MatL Ji = J[i].cast<LD>();
    const MatL JJ = Ji.transpose() * Ji;
    D += JJ;
    A += static_cast<LD>(w[i]) * JJ;
    b += static_cast<LD>(w[i]) * (Ji.transpose() * r[i].cast<LD>());
  }
  Step s;
  const Eigen::SelfAdjointEigenSolver<MatL> ed(D);
  s.smallest = static_cast<double>(ed.eigenvalues().cwiseAbs().minCoeff());
  const MatL ML = M.cast<LD>();
  s.H = ML.transpose() * A * ML;
  s.g = ML.transpose() * b;
  const Eigen::SelfAdjointEigenSolver<MatL> eh(s.H);
  const LD lo = eh.eigenvalues()(0), hi = eh.eigenvalues()(5);
  s.cond = lo <= 0 ? INFINITY : static_cast<double>(hi / lo);
  const VecL x = eh.eigenvectors() * (eh.eigenvectors().transpose() * s.g).cwiseQuotient(eh.eigenvalues());
  s.dx = -x.cast<double>();
  return s;
}
inline bool is_rigid(const Eigen::Isometry3d & p, double tol)
{
  const Eigen::Matrix3d R = p.linear();
  return p.matrix().allFinite() && (R.transpose() * R - Eigen::Matrix3d::Identity()).norm() <= tol &&
         std::abs(R.determinant() - 1.) <= tol && p.matrix().row(3) == Eigen::RowVector4d(0, 0, 0, 1);
}
inline std::string shown(const Eigen::MatrixXd & m)
{
  std::string s;
  for (int i = 0; i < m.rows(); i++) {
    for (int j = 0; j < m.cols(); j++) {s += vh::fmt("%.9g ", m(i, j));}
    s += "; ";
  }
  return s;
}
inline std::string shown(const Eigen::Isometry3d & p)
{
  const Eigen::Quaterniond q(p.linear());
  return vh::fmt("[t %.9g %.9g %.9g q %.9g %.9g %.9g %.9g]", p.translation()(0), p.translation()(1), p.translation()(2), q.w(), q.x(), q.y(), q.z());
}
}  // namespace reg
#endif  // VERIF_REG_REF_HPP_
