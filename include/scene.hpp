// A scene of plane patches and lines with maps and scans of it.
#ifndef VERIF_SCENE_HPP_
#define VERIF_SCENE_HPP_
#include "reg_ref.hpp"

namespace scene
{
using Points = std::vector<Eigen::Vector3d>;
struct Patch {Eigen::Vector3d c, a, b; bool line;};

class Scene
{
public:
  // 4 m x 4 m patches and 4 m lines in three directions, at least 6.5 m apart, the planes at least 1 m from the origin
  Scene(vh::Rng & r, int n_patches, int n_lines)
  {
    frame = reg::pose_of(reg::random_rotation(r), 20 * Eigen::Vector3d(r.n(), r.n(), r.n()));
    int tries = 0;
    while (static_cast<int>(patches.size()) < n_patches + n_lines) {
      Patch p;
      p.line = static_cast<int>(patches.size()) >= n_patches;
      const int axis = static_cast<int>(patches.size()) % 3;
      const Eigen::Vector3d nrm = (Eigen::Vector3d(Eigen::Vector3d::Unit(axis)) + 0.2 * reg::random_unit(r)).normalized();
      const Eigen::Vector3d a = nrm.cross(Eigen::Vector3d(Eigen::Vector3d::Unit((axis + 1) % 3))).normalized(), b = nrm.cross(a);
      p.a = frame.linear() * (p.line ? nrm : a);
      p.b = frame.linear() * b;
      p.c = frame * Eigen::Vector3d(r.u(-15, 15), r.u(-15, 15), r.u(-8, 8));
      bool ok = p.line || std::abs(p.c.dot(p.a.cross(p.b))) > 1.0;
      for (const auto & o : patches) {ok = ok && (o.c - p.c).norm() > 6.5;}
      if (ok) {patches.push_back(p);}
      if (++tries > 20000) {patches.clear(); tries = 0;}
    }
  }
  Points sample(vh::Rng & r, bool line, int per, double noise = 0) const
  {
    Points v;
    for (const auto & p : patches) {
      if (p.line != line) {continue;}
      for (int i = 0; i < per; i++) {
        v.push_back(p.c + r.u(-2, 2) * p.a + (line ? 0. : r.u(-2, 2)) * p.b + noise * Eigen::Vector3d(r.n(), r.n(), r.n()));
      }
    }
    return v;
  }
  // a sensor pose within the scene
  Eigen::Isometry3d viewpoint(vh::Rng & r) const
  {
    return frame * reg::pose_of(reg::random_rotation(r), 3 * Eigen::Vector3d(r.n(), r.n(), r.n()));
  }
  Eigen::Isometry3d frame;
  std::vector<Patch> patches;
};
inline Points seen_from(const Eigen::Isometry3d & sensor, Points v)
{
  const Eigen::Isometry3d inv = sensor.inverse();
  for (auto & p : v) {p = inv * p;}
  return v;
}
}  // namespace scene
#endif  // VERIF_SCENE_HPP_
