#include "spec.hpp"
#include <cmath>
#include <ndt_2d/graph.hpp>
#include <rosbag2_cpp/writer.hpp>
#include <rosbag2_cpp/reader.hpp>
using namespace ndt_2d;
namespace spec
{
// ---------------------------------------------------------------- saving and loading
void C22_save_scans(Graph & g, const std::string & name, size_t i, size_t j)
{
  spec::bag.clear();
  bool ok = g.save(name);
  holds("reports success", ok);
  same("file", spec::bag_name, name);
  same("messages written", spec::bag.size(), g.scans.size() + g.constraints.size());
  assume(i < g.scans.size());
  const BagEntry & e = spec::bag[i];
  same("scan topic", e.topic, std::string("scans"));
  same("scan type", e.type, std::string("ndt_2d/msg/Scan"));
  same("scan message", e.data.kind, 1);
  const Scan & s = *g.scans[i];
  same("id", e.data.scan.id, s.id_);
  same("x", e.data.scan.pose.position.x, s.pose_.x);
  same("y", e.data.scan.pose.position.y, s.pose_.y);
  same("heading", e.data.scan.pose.orientation.w, s.pose_.theta);
  same("number of points", e.data.scan.points.size(), s.points_.size());
  assume(j < s.points_.size());
  same("point x", e.data.scan.points[j].x, s.points_[j].x);
  same("point y", e.data.scan.points[j].y, s.points_[j].y);
}
void C22_save_constraints(Graph & g, const std::string & name, size_t i, size_t a, size_t b)
{
  spec::bag.clear();
  g.save(name);
  assume(i < g.constraints.size());
  const BagEntry & e = spec::bag[g.scans.size() + i];
  same("constraint topic", e.topic, std::string("constraints"));
  same("constraint type", e.type, std::string("ndt_2d/msg/Constraint"));
  same("constraint message", e.data.kind, 2);
  const Constraint & c = *g.constraints[i];
  same("begin", e.data.constraint.begin, static_cast<int64_t>(c.begin));
  same("end", e.data.constraint.end, static_cast<int64_t>(c.end));
  same("dx", e.data.constraint.transform.translation.x, c.transform(0));
  same("dy", e.data.constraint.transform.translation.y, c.transform(1));
  same("dtheta", e.data.constraint.transform.translation.z, c.transform(2));
  same("switchable", e.data.constraint.switchable, c.switchable);
  same("information 00", e.data.constraint.information[0], c.information(0, 0));
  same("information 01", e.data.constraint.information[1], c.information(0, 1));
  same("information 02", e.data.constraint.information[2], c.information(0, 2));
  same("information 10", e.data.constraint.information[3], c.information(1, 0));
  same("information 11", e.data.constraint.information[4], c.information(1, 1));
  same("information 12", e.data.constraint.information[5], c.information(1, 2));
  same("information 20", e.data.constraint.information[6], c.information(2, 0));
  same("information 21", e.data.constraint.information[7], c.information(2, 1));
  same("information 22", e.data.constraint.information[8], c.information(2, 2));
}
static BagEntry scan_entry_(const ndt_2d::msg::Scan & s)
{
  BagEntry e;
  e.topic = "scans";
  e.type = "ndt_2d/msg/Scan";
  e.data.kind = 1;
  e.data.scan = s;
  return e;
}
static BagEntry constraint_entry_(const ndt_2d::msg::Constraint & c)
{
  BagEntry e;
  e.topic = "constraints";
  e.type = "ndt_2d/msg/Constraint";
  e.data.kind = 2;
  e.data.constraint = c;
  return e;
}
static void is_scan_(const Scan & s, const ndt_2d::msg::Scan & m, size_t j)
{
  same("loaded id", s.id_, m.id);
  same("loaded x", s.pose_.x, m.pose.position.x);
  same("loaded y", s.pose_.y, m.pose.position.y);
  same("loaded heading", s.pose_.theta, m.pose.orientation.w);
  same("loaded points", s.points_.size(), m.points.size());
  assume(j < m.points.size());
  same("loaded point x", s.points_[j].x, m.points[j].x);
  same("loaded point y", s.points_[j].y, m.points[j].y);
}
static void is_constraint_(const Constraint & c, const ndt_2d::msg::Constraint & m)
{
  same("loaded begin", static_cast<int64_t>(c.begin), m.begin);
  same("loaded end", static_cast<int64_t>(c.end), m.end);
  same("loaded dx", c.transform(0), m.transform.translation.x);
  same("loaded dy", c.transform(1), m.transform.translation.y);
  same("loaded dtheta", c.transform(2), m.transform.translation.z);
  same("loaded switchable", c.switchable, m.switchable);
  same("loaded information 00", c.information(0, 0), m.information[0]);
  same("loaded information 01", c.information(0, 1), m.information[1]);
  same("loaded information 02", c.information(0, 2), m.information[2]);
  same("loaded information 10", c.information(1, 0), m.information[3]);
  same("loaded information 11", c.information(1, 1), m.information[4]);
  same("loaded information 12", c.information(1, 2), m.information[5]);
  same("loaded information 20", c.information(2, 0), m.information[6]);
  same("loaded information 21", c.information(2, 1), m.information[7]);
  same("loaded information 22", c.information(2, 2), m.information[8]);
}
void C22_load_scan(bool b, const std::string & name, const ndt_2d::msg::Scan & m, size_t j)
{
  spec::bag.clear();
  spec::bag.push_back(scan_entry_(m));
  Graph g(b, name);
  same("opened file", spec::bag_name, name);
  same("kind of poses", g.use_barycenter_, b);
  same("one scan", g.scans.size(), 1ul);
  same("no constraint", g.constraints.size(), 0ul);
  is_scan_(*g.scans[0], m, j);
}
void C22_load_constraint(bool b, const std::string & name, const ndt_2d::msg::Constraint & m)
{
  spec::bag.clear();
  spec::bag.push_back(constraint_entry_(m));
  Graph g(b, name);
  same("no scan", g.scans.size(), 0ul);
  same("one constraint", g.constraints.size(), 1ul);
  is_constraint_(*g.constraints[0], m);
}
void C22_load_mixed(bool b, const std::string & name, const ndt_2d::msg::Scan & s, const ndt_2d::msg::Scan & t,
                    const ndt_2d::msg::Constraint & c, const ndt_2d::msg::Constraint & d, size_t j)
{
  spec::bag.clear();
  spec::bag.push_back(scan_entry_(s));
  spec::bag.push_back(constraint_entry_(c));
  spec::bag.push_back(constraint_entry_(d));
  spec::bag.push_back(scan_entry_(t));
  Graph g(b, name);
  same("all scans", g.scans.size(), 2ul);
  same("all constraints", g.constraints.size(), 2ul);
  same("first id", g.scans[0]->id_, s.id);
  same("first heading", g.scans[0]->pose_.theta, s.pose.orientation.w);
  same("second id", g.scans[1]->id_, t.id);
  same("second heading", g.scans[1]->pose_.theta, t.pose.orientation.w);
  same("first points", g.scans[0]->points_.size(), s.points.size());
  same("second points", g.scans[1]->points_.size(), t.points.size());
  same("first begin", static_cast<int64_t>(g.constraints[0]->begin), c.begin);
  same("second begin", static_cast<int64_t>(g.constraints[1]->begin), d.begin);
  same("first switchable", g.constraints[0]->switchable, c.switchable);
  same("second switchable", g.constraints[1]->switchable, d.switchable);
  same("second transform", g.constraints[1]->transform(2), d.transform.translation.z);
  same("second information", g.constraints[1]->information(2, 1), d.information[7]);
}
// the whole way round
void C22_round(bool b, const std::string & name, Graph & g, const ScanPtr & s, const ScanPtr & t, const ConstraintPtr & c, size_t j)
{
  g.scans.clear();
  g.scans.push_back(s);
  g.scans.push_back(t);
  g.constraints.clear();
  g.constraints.push_back(c);
  spec::bag.clear();
  g.save(name);
  Graph h(b, name);
  same("scans again", h.scans.size(), 2ul);
  same("constraints again", h.constraints.size(), 1ul);
  same("id again", h.scans[1]->id_, t->id_);
  same("x again", h.scans[1]->pose_.x, t->pose_.x);
  same("y again", h.scans[1]->pose_.y, t->pose_.y);
  same("heading again", h.scans[0]->pose_.theta, s->pose_.theta);
  same("points again", h.scans[0]->points_.size(), s->points_.size());
  same("begin again", h.constraints[0]->begin, c->begin);
  same("end again", h.constraints[0]->end, c->end);
  same("switchable again", h.constraints[0]->switchable, c->switchable);
  same("transform again", h.constraints[0]->transform(2), c->transform(2));
  same("information again", h.constraints[0]->information(0, 1), c->information(0, 1));
  assume(j < s->points_.size());
  same("point again", h.scans[0]->points_[j].y, s->points_[j].y);
}
void C22_empty(bool b, const std::string & name)
{
  spec::bag.clear();
  Graph g(b, name);
  same("nothing to load", g.scans.size() + g.constraints.size(), 0ul);
}

// ---------------------------------------------------------------- nearest search
static void near_(Graph & g, const ScanPtr & s, double dist, int limit, bool barycenter, size_t n)
{
  std::vector<double> x(n), y(n);
  for (size_t i = 0; i < n; ++i)
  {
    Pose2d p = barycenter ? g.scans[i]->getBarycenterPose() : g.scans[i]->getPose();
    x[i] = p.x;
    y[i] = p.y;
  }
  Pose2d q = barycenter ? s->getBarycenterPose() : s->getPose();
  auto r = spec::within<unsigned>(x, y, q.x, q.y, dist * dist, true, 2);
  std::vector<size_t> got = g.findNearest(s, dist, limit);
  same("number of neighbours", got.size(), r.size());
  size_t k = spec::any_index("k");
  assume(k < r.size());
  same("neighbours", got[k], static_cast<size_t>(r[k].first));
}
void C23_all_barycenter(Graph & g, ScanPtr & s, double dist)
{
  g.use_barycenter_ = true;
  near_(g, s, dist, -1, true, g.scans.size());
}
void C23_all_pose(Graph & g, ScanPtr & s, double dist)
{
  g.use_barycenter_ = false;
  near_(g, s, dist, -1, false, g.scans.size());
}
void C23_no_limit(Graph & g, ScanPtr & s, double dist)
{
  g.use_barycenter_ = true;
  near_(g, s, dist, 0, true, g.scans.size());
}
void C23_limit_barycenter(Graph & g, ScanPtr & s, double dist, int limit)
{
  positive(limit);
  g.use_barycenter_ = true;
  near_(g, s, dist, limit, true, static_cast<size_t>(limit));
}
void C23_limit_pose(Graph & g, ScanPtr & s, double dist, int limit)
{
  positive(limit);
  g.use_barycenter_ = false;
  near_(g, s, dist, limit, false, static_cast<size_t>(limit));
}
void C23_keeps(Graph & g, ScanPtr & s, double dist, int limit, size_t i)
{
  positive(limit);
  Graph before = snapshot(g);
  g.findNearest(s, dist, limit);
  same("number of scans", g.scans.size(), before.scans.size());
  same("number of constraints", g.constraints.size(), before.constraints.size());
  same("kind of poses", g.use_barycenter_, before.use_barycenter_);
}

// ---------------------------------------------------------------- visualization
typedef visualization_msgs::msg::Marker Marker;
void C24_count(Graph & g, visualization_msgs::msg::MarkerArray & m, rclcpp::Time & t)
{
  m.markers.clear();
  g.getMsg(m, t);
  same("markers", m.markers.size(), g.scans.size() + g.constraints.size());
}
void C24_node(Graph & g, visualization_msgs::msg::MarkerArray & m, rclcpp::Time & t, size_t i)
{
  m.markers.clear();
  g.getMsg(m, t);
  assume(i < g.scans.size());
  const Marker & n = m.markers[i];
  const Pose2d & p = g.scans[i]->pose_;
  same("node id", n.id, static_cast<int>(g.scans[i]->id_));
  same("node x", n.pose.position.x, p.x);
  same("node y", n.pose.position.y, p.y);
  same("node namespace", n.ns, std::string("nodes"));
  same("node type", n.type, static_cast<int>(Marker::SPHERE));
  same("node action", n.action, static_cast<int>(Marker::ADD));
  same("node frame", n.header.frame_id, std::string("map"));
}
void C24_edge(Graph & g, visualization_msgs::msg::MarkerArray & m, rclcpp::Time & t, size_t i)
{
  m.markers.clear();
  g.getMsg(m, t);
  assume(i < g.constraints.size());
  const Marker & e = m.markers[g.scans.size() + i];
  const Constraint & c = *g.constraints[i];
  const Pose2d & a = g.scans[c.begin]->pose_, & b = g.scans[c.end]->pose_;
  same("edge id", e.id, static_cast<int>(i));
  same("edge namespace", e.ns, std::string("edges"));
  same("edge type", e.type, static_cast<int>(Marker::LINE_STRIP));
  same("edge action", e.action, static_cast<int>(Marker::ADD));
  same("edge frame", e.header.frame_id, std::string("map"));
  same("edge ends", e.points.size(), 2ul);
  same("begin x", e.points[0].x, a.x);
  same("begin y", e.points[0].y, a.y);
  same("end x", e.points[1].x, b.x);
  same("end y", e.points[1].y, b.y);
  same("not displaced x", e.pose.position.x, 0.0);
  same("not displaced y", e.pose.position.y, 0.0);
}
void C24_colour(Graph & g, visualization_msgs::msg::MarkerArray & m, rclcpp::Time & t, size_t i, size_t j)
{
  m.markers.clear();
  g.getMsg(m, t);
  assume(i < g.constraints.size());
  assume(j < g.constraints.size());
  assume(g.constraints[i]->switchable);
  assume(!g.constraints[j]->switchable);
  const Marker & a = m.markers[g.scans.size() + i], & b = m.markers[g.scans.size() + j];
  holds("loop closures look different", a.color.r != b.color.r || a.color.g != b.color.g || a.color.b != b.color.b || a.color.a != b.color.a);
}
}
