#include "rig.hpp"
// The robot heads along odom +y and drives forward 0.1 m during the scan; it sees a wall ahead.
// Beams late in the scan must be moved forward (robot +x), not sideways
int main() {
  rig::installTf(); rig::odom().theta = M_PI / 2; rig::odom_rate().y = 1.0;
  rig::M m(rig::quick());
  auto l = rig::laserMsg(101); l->time_increment = 0.001;
  m.laserCallback(l);
  auto p = m.graph_->scans[0]->getPoints()[100];
  double a = l->angle_min + 100 * l->angle_increment, r = l->ranges[100];
  double dx = p.x - r * cos(a), dy = p.y - r * sin(a);
  printf("shift %f %f\n", dx, dy);
  if (std::fabs(dx - 0.1) > 0.01 || std::fabs(dy) > 0.01) { printf("BAD last beam moved by (%f, %f), not (0.1, 0)\n", dx, dy); fflush(stdout); _exit(1); }
  rig::stop();
}
