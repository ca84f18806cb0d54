#include "rig.hpp"
// As above, upside-down laser. LaserScan: beam i was taken time_increment * i after the stamp
int main() {
  rig::installTf(); rig::laser_roll() = 3.14; rig::odom_rate().x = 1.0;
  rig::M m(rig::quick());
  auto l = rig::laserMsg(101); l->time_increment = 0.001;
  m.laserCallback(l);
  auto pts = m.graph_->scans[0]->getPoints();
  auto p = pts.front();   // beams are visited from the last to the first
  double a = -(l->angle_min + 100 * l->angle_increment), r = l->ranges[100];
  double la = rig::laser_roll() != 0 ? tf2::getYaw(tf2_ros::stub_tf()("base_link", "laser", {}).transform.rotation) : 0;
  double dx = p.x - r * cos(a + la), dy = p.y - r * sin(a + la);
  printf("shift of the last beam %f %f\n", dx, dy);
  if (std::fabs(dx - 0.1) > 0.01) { printf("BAD last beam moved by (%f, %f), not (0.1, 0)\n", dx, dy); fflush(stdout); _exit(1); }
  rig::stop();
}
