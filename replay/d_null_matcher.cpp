#include "rig.hpp"
// A map is loaded, no laser scan came yet: the loop closure thread has no matcher
int main() {
  rig::installTf();
  { ndt_2d::Graph g(true);
    for (int i = 0; i < 14; ++i) { auto s = std::make_shared<ndt_2d::Scan>(i); s->setPoints({{1, 1}, {2, 1}}); s->setPose({0.01 * i, 0, 0}); g.scans.push_back(s); }
    g.save("bag"); }
  auto o = rig::quick(); o.append_parameter_override("map_file", std::string("bag"));
  rig::M m(o);
  std::this_thread::sleep_for(std::chrono::milliseconds(2500));
  rig::stop();
}
