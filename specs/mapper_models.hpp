// Stand-ins for the components the mapper uses: they record how they are used and give back unknown values.
#pragma once
#include "spec.hpp"
#include <cmath>
#include <angles/angles.h>
#include <ndt_2d/conversions.hpp>
#include <ndt_2d/ndt_mapper.hpp>
namespace spec
{
using namespace ndt_2d;
typedef std::vector<ScanPtr> Scans;
typedef std::vector<ConstraintPtr> Constraints;

inline int step = 0;                    // numbers the recorded operations

// ------------------------------------------------ graph files and searches
inline int loads = 0, saves = 0;
inline std::string file;
inline Graph * saved = nullptr;
inline Graph load_graph_(bool barycenter, const std::string & name)
{
  ++loads;
  file = name;
  Graph g(barycenter);
  return g;
}
inline bool save_graph_(Graph & g, const std::string & name)
{
  ++saves;
  file = name;
  saved = &g;
  return true;
}
inline std::vector<size_t> candidates;
inline int searches = 0;
inline double search_distance = 0.0;
inline int search_limit = 0;
inline size_t search_id = 0, search_ids = 0;
inline Pose2d search_pose;
inline std::vector<size_t> find_nearest_(Graph & g, const ScanPtr & scan, double distance, int limit)
{
  ++searches;
  search_distance = distance;
  search_limit = limit;
  search_id = scan->id_;
  search_ids += scan->id_;
  search_pose = scan->pose_;
  return candidates;
}

// ------------------------------------------------ matchers
struct Use
{
  ScanMatcher * on = nullptr;
  int at = 0, count = 0;
  Scans scans;                       // addScans
  std::vector<Point> points;         // matchScan
  Pose2d pose;
  size_t id = 0;
};
inline Use added, cleared, matched, scored;
inline void add_scans_(ScanMatcher & m, const std::vector<ScanPtr>::const_iterator & begin, const std::vector<ScanPtr>::const_iterator & end)
{
  added.on = &m;
  added.at = ++step;
  ++added.count;
  added.scans.assign(begin, end);
}
inline void reset_(ScanMatcher & m)
{
  cleared.on = &m;
  cleared.at = ++step;
  ++cleared.count;
}
inline double score_scan_(ScanMatcher & m, const ScanPtr & scan)
{
  ++scored.count;
  return any_real("uncorrected score");
}
inline Pose2d correction_(int n) {return Pose2d(any_real("correction x", n), any_real("correction y", n), any_real("correction theta", n));}
inline Eigen::Matrix3d covariance_(int n)
{
  Eigen::Matrix3d c;
  for (int i = 0; i < 3; ++i)
  {
    for (int j = 0; j < 3; ++j) {c(i, j) = any_real("match covariance", n, i, j);}
  }
  return c;
}
inline double score_(int n) {return any_real("match score", n);}
inline double match_scan_(ScanMatcher & m, const ScanPtr & scan, Pose2d & pose, Eigen::Matrix3d & covariance)
{
  matched.on = &m;
  matched.at = ++step;
  ++matched.count;
  matched.points = scan->points_;
  matched.pose = scan->pose_;
  matched.id = scan->id_;
  pose = correction_(matched.count);
  covariance = covariance_(matched.count);
  return score_(matched.count);
}
// A matcher as the plugin loader gives it
class Matcher : public ScanMatcher
{
public:
  void initialize(const std::string & name, rclcpp::Node * node, double range) override;
  void addScans(const std::vector<ScanPtr>::const_iterator & begin, const std::vector<ScanPtr>::const_iterator & end) override {add_scans_(*this, begin, end);}
  double matchScan(const ScanPtr & scan, Pose2d & pose, Eigen::Matrix3d & covariance) const override
  {
    return match_scan_(const_cast<Matcher &>(*this), scan, pose, covariance);
  }
  double scoreScan(const ScanPtr & scan) const override {return any_real("uncorrected score");}
  double scorePoints(const std::vector<Point> & points, const Pose2d & pose) const override {return any_real("score of points");}
  void reset() override {reset_(*this);}
};
inline int created = 0;
inline std::string first_type, second_type;
inline std::shared_ptr<ScanMatcher> create_(pluginlib::ClassLoader<ScanMatcher> & loader, const std::string & type)
{
  ++created;
  if (created == 1) {first_type = type;}
  if (created == 2) {second_type = type;}
  return std::make_shared<Matcher>();
}
struct Setup
{
  int count = 0;
  std::string name;
  double range = 0.0;
  int at = 0;
  ScanMatcher * on = nullptr;
};
inline Setup global_setup, local_setup;
inline void initialize_(ScanMatcher & m, const std::string & name, rclcpp::Node * node, double range)
{
  ++step;
  if (name == "global_scan_matcher")
  {
    ++global_setup.count;
    global_setup.range = range;
    global_setup.at = step;
    global_setup.on = &m;
  }
  if (name == "local_scan_matcher")
  {
    ++local_setup.count;
    local_setup.range = range;
    local_setup.at = step;
    local_setup.on = &m;
  }
}
inline void Matcher::initialize(const std::string & name, rclcpp::Node * node, double range) {initialize_(*this, name, node, range);}

// ------------------------------------------------ particle filter
struct FilterUse
{
  int updated = 0, measured = 0, resampled = 0, initialized = 0, meaned = 0;     // when
  int updates = 0, measures = 0, resamples = 0, inits = 0;                       // how often
  double dx = 0, dy = 0, dth = 0, kld_err = 0, kld_z = 0;
  double x = 0, y = 0, theta = 0, sx = 0, sy = 0, st = 0;
  ScanMatcher * matcher = nullptr;
  std::vector<Point> points;
};
inline FilterUse filter;
inline void update_(ParticleFilter & f, double dx, double dy, double dth)
{
  filter.updated = ++step;
  ++filter.updates;
  filter.dx = dx;
  filter.dy = dy;
  filter.dth = dth;
}
inline void measure_(ParticleFilter & f, const ScanMatcherPtr & matcher, const ScanPtr & scan)
{
  filter.measured = ++step;
  ++filter.measures;
  filter.matcher = matcher.get();
  filter.points = scan->points_;
}
inline void resample_(ParticleFilter & f, double kld_err, double kld_z)
{
  filter.resampled = ++step;
  ++filter.resamples;
  filter.kld_err = kld_err;
  filter.kld_z = kld_z;
}
inline void init_(ParticleFilter & f, double x, double y, double theta, double sx, double sy, double st)
{
  filter.initialized = ++step;
  ++filter.inits;
  filter.x = x;
  filter.y = y;
  filter.theta = theta;
  filter.sx = sx;
  filter.sy = sy;
  filter.st = st;
}
inline Eigen::Vector3d mean_(ParticleFilter & f)
{
  filter.meaned = ++step;
  return Eigen::Vector3d(any_real("mean x"), any_real("mean y"), any_real("mean theta"));
}
inline int filter_msg_at = 0;
inline void filter_msg_(ParticleFilter & f, geometry_msgs::msg::PoseArray & msg)
{
  filter_msg_at = ++step;
  msg.poses.resize(9);
}

// ------------------------------------------------ transforms
inline bool fails_(const std::string & target, const std::string & source, long stamp) {return any_bool("no transform", target, source, stamp);}
inline Pose2d at_(const std::string & target, const std::string & source, long stamp)
{
  return Pose2d(any_real("transform x", target, source, stamp), any_real("transform y", target, source, stamp),
                any_real("transform theta", target, source, stamp));
}
inline geometry_msgs::msg::TransformStamped lookup_(tf2_ros::Buffer & b, const std::string & target, const std::string & source)
{
  if (fails_(target, source, 0)) {throw tf2::TransformException("not available");}
  geometry_msgs::msg::TransformStamped t;
  Pose2d p = at_(target, source, 0);
  t.transform.translation.x = p.x;
  t.transform.translation.y = p.y;
  t.transform.rotation.x = any_real("roll", target, source);
  t.transform.rotation.y = any_real("pitch", target, source);
  t.transform.rotation.z = any_real("transform qz", target, source);
  t.transform.rotation.w = any_real("transform qw", target, source);
  return t;
}
inline double waited = 0.0;
inline void transform_(tf2_ros::Buffer & b, const geometry_msgs::msg::PoseStamped & in, geometry_msgs::msg::PoseStamped & out,
                       const std::string & target, const tf2::Duration & timeout)
{
  long stamp = rclcpp::Time(in.header.stamp).nanoseconds();
  if (fails_(target, in.header.frame_id, stamp)) {throw tf2::TransformException("not available");}
  Pose2d p = at_(target, in.header.frame_id, stamp);
  waited = timeout.count();
  out.header.frame_id = target;
  out.pose.position.x = p.x;
  out.pose.position.y = p.y;
  out.pose.orientation.w = p.theta;
}
// heading of a quaternion that comes from transform_
inline double yaw_(const geometry_msgs::msg::Quaternion & q) {return any_real("yaw", q.x, q.y, q.z, q.w);}

// ------------------------------------------------ optimization and messages
inline int optimizations = 0;
inline int optimized_at = 0;
inline size_t optimized_scans = 0, optimized_constraints = 0;
inline CeresSolver * optimized_by = nullptr;
inline bool optimize_(CeresSolver & s, const Constraints & constraints, const Scans & scans)
{
  ++optimizations;
  optimized_at = ++step;
  optimized_by = &s;
  optimized_scans = scans.size();
  optimized_constraints = constraints.size();
  return true;
}
inline int grids = 0, graphs = 0;
inline Mapper * disturb = nullptr;          // its map changes while a message is made
inline builtin_interfaces::msg::Time graph_stamp;
inline size_t grid_scans = 0, graph_scans = 0, graph_constraints = 0;
inline void grid_msg_(OccupancyGrid & g, const Scans & scans, nav_msgs::msg::OccupancyGrid & msg)
{
  ++grids;
  if (disturb) {disturb->map_update_available_ = true;}
  grid_scans = scans.size();
  msg.info.origin.position.x = any_real("content of the grid", grids);
}
inline void graph_msg_(Graph & g, visualization_msgs::msg::MarkerArray & msg, const rclcpp::Time & t)
{
  ++graphs;
  graph_scans = g.scans.size();
  graph_stamp = t;
  graph_constraints = g.constraints.size();
  msg.markers.resize(7);
}
inline geometry_msgs::msg::TransformStamped to_transform_(const Eigen::Isometry3d & t)
{
  geometry_msgs::msg::TransformStamped m;
  m.transform.translation.x = t.translation()(0);
  m.transform.translation.y = t.translation()(1);
  m.transform.translation.z = t.translation()(2);
  m.transform.rotation.x = t.matrix()(0, 0);
  m.transform.rotation.y = t.matrix()(0, 1);
  m.transform.rotation.z = t.matrix()(1, 0);
  m.transform.rotation.w = t.matrix()(1, 1);
  return m;
}

// ------------------------------------------------ what happens while a thread sleeps
inline int sleeps = 0;
struct Change
{
  Mapper * mapper = nullptr;
  size_t depth = 0, processed = 0, optimized = 0;
  GraphPtr graph;
};
inline Change second;             // state at the second round
inline void sleep_(const std::chrono::seconds & d)
{
  ++sleeps;
  if (second.mapper && sleeps == 2)
  {
    second.mapper->rolling_depth_ = second.depth;
    second.mapper->global_scans_processed_ = second.processed;
    second.mapper->optimization_last_ = second.optimized;
    if (second.graph) {second.mapper->graph_ = second.graph;}
  }
}
}
