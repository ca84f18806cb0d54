#include "rig.hpp"
// nanoflann L2 radii are squared
int main() {
  ndt_2d::Graph g(false); int bad = 0;
  auto s = std::make_shared<ndt_2d::Scan>(0); g.scans.push_back(s);
  auto q = std::make_shared<ndt_2d::Scan>(1); q->setPose({5, 0, 0});
  if (g.findNearest(q, 10.0).size() != 1) { printf("BAD a scan 5 m away is not found within 10 m\n"); bad = 1; }
  q->setPose({0.4, 0, 0});
  if (g.findNearest(q, 0.2).size() != 0) { printf("BAD a scan 0.4 m away is found within 0.2 m\n"); bad = 1; }
  return bad;
}
