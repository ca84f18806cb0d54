#include "rig.hpp"
// Squared residual must be e' * information * e
int main() {
  Eigen::Matrix3d info; info << 4, 2, 0.5, 2, 9, 1, 0.5, 1, 3;
  std::vector<ndt_2d::ScanPtr> v{std::make_shared<ndt_2d::Scan>(0), std::make_shared<ndt_2d::Scan>(1)};
  auto mk = [&](Eigen::Vector3d t, Eigen::Matrix3d in) { auto c = std::make_shared<ndt_2d::Constraint>();
    c->begin = 0; c->end = 1; c->transform = t; c->information = in; c->switchable = false; return c; };
  Eigen::Matrix3d i2; i2 << 5, -1, 0.3, -1, 2, 0.2, 0.3, 0.2, 6;
  Eigen::Vector3d t1(1, 0, 0), t2(1.2, 0.3, 0.1);
  ndt_2d::CeresSolver s; s.optimize({mk(t1, info), mk(t2, i2)}, v);
  Eigen::Vector3d x = (info + i2).inverse() * (info * t1 + i2 * t2);
  auto p = v[1]->getPose();
  double err = (Eigen::Vector3d(p.x, p.y, p.theta) - x).norm();
  if (err > 1e-3) { printf("BAD optimum is off by %g\n", err); return 1; }
}
