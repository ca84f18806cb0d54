#include "rig.hpp"
#include <chrono>
#include <thread>
// Loading another map while mapping: the solver keeps the nodes and constraints of the old one.
int main() {
  auto mk = [](double x) { auto c = std::make_shared<ndt_2d::Constraint>(); c->begin = 0; c->end = 1;
    c->transform = Eigen::Vector3d(x, 0, 0); c->information = Eigen::Matrix3d::Identity(); c->switchable = false; return c; };
  rig::installTf();
  auto save = [&](const char * n, double x, int k) { ndt_2d::Graph g(true);
    for (int i = 0; i < k; ++i) g.scans.push_back(std::make_shared<ndt_2d::Scan>(i));
    g.constraints.push_back(mk(x)); g.save(n); };
  save("a", 1.0, 2); save("b", 2.0, 2);
  auto o = rig::quick(); o.append_parameter_override("map_file", std::string("a"));
  rig::M m(o);
  std::this_thread::sleep_for(std::chrono::milliseconds(300));
  m.laserCallback(rig::laserMsg());
  std::this_thread::sleep_for(std::chrono::milliseconds(1500));
  { std::lock_guard<std::mutex> l(m.graph_mutex_); m.solver_->optimize(m.graph_->constraints, m.graph_->scans); }
  auto req = std::make_shared<ndt_2d::srv::Configure::Request>(); req->action = ndt_2d::srv::Configure::Request::LOAD_FROM_FILE; req->filename = "b";
  m.configure(req, nullptr);
  std::this_thread::sleep_for(std::chrono::milliseconds(2200));
  double x;
  { std::lock_guard<std::mutex> l(m.graph_mutex_); m.solver_->optimize(m.graph_->constraints, m.graph_->scans);
    x = m.graph_->scans[1]->getPose().x; }
  rig::stop();
  if (std::fabs(x - 2.0) > 1e-3) { printf("BAD optimum of the loaded map is %f, not 2\n", x); return 1; }
}
