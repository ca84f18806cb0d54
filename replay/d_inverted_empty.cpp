#include "rig.hpp"
int main() {
  rig::installTf(); rig::laser_roll() = 3.14; rig::M m(rig::quick());
  m.laserCallback(rig::laserMsg(0));
  rig::stop();
}
