#include "rig.hpp"
// The heading variance grows with every update although the particles do not move
int main() {
  auto mm = std::make_shared<ndt_2d::MotionModel>(1e-6, 1e-6, 1e-6, 1e-6, 1e-6);
  ndt_2d::ParticleFilter f(50, 100, mm); f.init(1, 2, 0.5, 0.1, 0.1, 0.1);
  f.update(1e-3, 0, 0); double a = f.getCovariance()(2, 2);
  for (int i = 0; i < 20; ++i) f.update(1e-3, 0, 0);
  double b = f.getCovariance()(2, 2);
  if (b > 1.5 * a) { printf("BAD heading variance grew from %f to %f without motion\n", a, b); return 1; }
}
