#include "rig.hpp"
// Odometry yaw passes +pi during the scan: the motion is taken for almost a full turn
int main() {
  rig::installTf(); rig::odom().theta = M_PI - 0.001; rig::odom_rate().theta = 0.02;
  rig::M m(rig::quick());
  auto l = rig::laserMsg(100); l->time_increment = 0.001;
  m.laserCallback(l);
  auto p = m.graph_->scans[0]->getPoints()[99];
  double a = l->angle_min + 99 * l->angle_increment, r = l->ranges[99];
  double err = std::hypot(p.x - r * cos(a), p.y - r * sin(a));
  if (err > 0.1) { printf("BAD beam moved by %f m although the robot turned 0.002 rad\n", err); fflush(stdout); _exit(1); }
  rig::stop();
}
