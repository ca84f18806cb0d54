#include "mapper_models.hpp"
namespace spec
{
// ---------------------------------------------------------------- published transform
void C26_transform(Mapper & m)
{
  spec::rounds = 1;
  assume(m.graph_->scans.size() > 0);
  const Pose2d r = snapshot(m.prev_robot_pose_), o = snapshot(m.prev_odom_pose_);
  int before = m.tf2_broadcaster_->count;
  m.mapPublishThread();
  same("one transform per round", m.tf2_broadcaster_->count, before + 1);
  const geometry_msgs::msg::TransformStamped t = m.tf2_broadcaster_->last;
  same("parent frame", t.header.frame_id, std::string("map"));
  same("child frame", t.child_frame_id, m.odom_frame_);
  double c = cos(r.theta - o.theta), s = sin(r.theta - o.theta);
  same("x", t.transform.translation.x, r.x - (c * o.x - s * o.y));
  same("y", t.transform.translation.y, r.y - (s * o.x + c * o.y));
  same("z", t.transform.translation.z, 0.0);
  same("rotation 00", t.transform.rotation.x, c);
  same("rotation 01", t.transform.rotation.y, -s);
  same("rotation 10", t.transform.rotation.z, s);
  same("rotation 11", t.transform.rotation.w, c);
}
void C26_no_scans(Mapper & m)
{
  spec::rounds = 1;
  assume(m.graph_->scans.size() == 0);
  int before = m.tf2_broadcaster_->count;
  m.mapPublishThread();
  same("nothing to place without scans", m.tf2_broadcaster_->count, before);
}
void C26_keeps(Mapper & m)
{
  spec::rounds = 1;
  const Pose2d r = snapshot(m.prev_robot_pose_), o = snapshot(m.prev_odom_pose_);
  m.mapPublishThread();
  same("tracked x", m.prev_robot_pose_.x, r.x);
  same("tracked heading", m.prev_robot_pose_.theta, r.theta);
  same("odometry x", m.prev_odom_pose_.x, o.x);
  same("odometry heading", m.prev_odom_pose_.theta, o.theta);
}

// ---------------------------------------------------------------- notification
void C29_publish(Mapper & m)
{
  spec::rounds = 1;
  spec::grids = spec::graphs = 0;
  assume(m.map_update_available_);
  int maps = m.map_pub_->count, markers = m.graph_pub_->count;
  m.mapPublishThread();
  same("map published", m.map_pub_->count, maps + 1);
  same("graph published", m.graph_pub_->count, markers + 1);
  same("map from the current graph", m.map_pub_->last.info.origin.position.x, any_real("content of the grid", 1));
  same("map of all scans", spec::grid_scans, m.graph_->scans.size());
  same("graph markers", m.graph_pub_->last.markers.size(), 7ul);
  same("graph of all scans", spec::graph_scans, m.graph_->scans.size());
  same("graph of all constraints", spec::graph_constraints, m.graph_->constraints.size());
  same("map frame", m.map_pub_->last.header.frame_id, std::string("map"));
  holds("announced once", !m.map_update_available_);
}
void C29_quiet(Mapper & m)
{
  spec::rounds = 1;
  assume(!m.map_update_available_);
  int maps = m.map_pub_->count, markers = m.graph_pub_->count;
  m.mapPublishThread();
  same("map not published again", m.map_pub_->count, maps);
  same("graph not published again", m.graph_pub_->count, markers);
  holds("still nothing to announce", !m.map_update_available_);
}

void C29_during(Mapper & m)
{
  spec::rounds = 1;
  spec::disturb = &m;
  assume(m.map_update_available_);
  m.mapPublishThread();
  holds("a change during publication is published next", m.map_update_available_);
}
typedef std::shared_ptr<ndt_2d::srv::Configure::Request> Request;
typedef std::shared_ptr<ndt_2d::srv::Configure::Response> Response;
void C29_load(Mapper & m, const Request & q, const Response & r)
{
  q->action = ndt_2d::srv::Configure::Request::LOAD_FROM_FILE;
  m.configure(q, r);
  holds("a loaded map is announced", m.map_update_available_);
}

// ---------------------------------------------------------------- service
void C42_enable(Mapper & m, const Request & q, const Response & r)
{
  m.use_particle_filter_ = false;
  q->action = ndt_2d::srv::Configure::Request::ENABLE_MAPPING;
  bool init = snapshot(m.prev_odom_pose_is_initialized_);
  const Graph * g = snapshot(m.graph_).get();
  m.configure(q, r);
  holds("enabled", m.enable_mapping_);
  same("localization kept", m.prev_odom_pose_is_initialized_, init);
  same("nothing loaded", spec::loads, snapshot(spec::loads));
  holds("graph kept", m.graph_.get() == g);
}
void C42_disable(Mapper & m, const Request & q, const Response & r)
{
  q->action = ndt_2d::srv::Configure::Request::DISABLE_MAPPING;
  const Graph * g = snapshot(m.graph_).get();
  m.configure(q, r);
  holds("disabled", !m.enable_mapping_);
  holds("graph kept", m.graph_.get() == g);
}
void C42_load(Mapper & m, const Request & q, const Response & r)
{
  spec::loads = spec::saves = 0;
  q->action = ndt_2d::srv::Configure::Request::LOAD_FROM_FILE;
  bool enabled = snapshot(static_cast<bool>(m.enable_mapping_));
  const Graph * g = snapshot(m.graph_).get();
  m.configure(q, r);
  same("one file loaded", spec::loads, 1);
  same("no file saved", spec::saves, 0);
  same("file loaded", spec::file, q->filename);
  holds("graph replaced", m.graph_.get() != g);
  same("kind of poses of the loaded graph", m.graph_->use_barycenter_, m.use_barycenter_);
  same("mapping as before", static_cast<bool>(m.enable_mapping_), enabled);
}
void C42_save(Mapper & m, const Request & q, const Response & r)
{
  spec::loads = spec::saves = 0;
  q->action = ndt_2d::srv::Configure::Request::SAVE_TO_FILE;
  bool enabled = snapshot(static_cast<bool>(m.enable_mapping_)), init = snapshot(m.prev_odom_pose_is_initialized_);
  const Graph * g = snapshot(m.graph_).get();
  m.configure(q, r);
  same("no file loaded", spec::loads, 0);
  same("one file saved", spec::saves, 1);
  same("file saved", spec::file, q->filename);
  holds("current graph saved", spec::saved == m.graph_.get());
  holds("graph kept", m.graph_.get() == g);
  same("mapping as before", static_cast<bool>(m.enable_mapping_), enabled);
  same("localization as before", m.prev_odom_pose_is_initialized_, init);
}
void C42_both(Mapper & m, const Request & q, const Response & r)
{
  spec::loads = spec::saves = 0;
  m.use_particle_filter_ = false;
  q->action = ndt_2d::srv::Configure::Request::ENABLE_MAPPING + ndt_2d::srv::Configure::Request::LOAD_FROM_FILE;
  m.configure(q, r);
  holds("enabled", m.enable_mapping_);
  same("loaded", spec::loads, 1);
  same("not saved", spec::saves, 0);
}
// whatever else is asked for: each bit counts for itself
static void action_(Mapper & m, const Request & q, const Response & r, int action)
{
  typedef ndt_2d::srv::Configure::Request R;
  spec::loads = spec::saves = 0;
  m.use_particle_filter_ = false;
  q->action = action;
  bool enabled = snapshot(static_cast<bool>(m.enable_mapping_));
  const Graph * g = snapshot(m.graph_).get();
  m.configure(q, r);
  bool on = action & R::ENABLE_MAPPING, off = action & R::DISABLE_MAPPING;
  same("mapping", static_cast<bool>(m.enable_mapping_), on ? true : off ? false : enabled);
  same("loaded", spec::loads, action & R::LOAD_FROM_FILE ? 1 : 0);
  same("saved", spec::saves, action & R::SAVE_TO_FILE ? 1 : 0);
  if (action & R::LOAD_FROM_FILE)
  {
    holds("graph replaced", m.graph_.get() != g);
  }
  else
  {
    holds("graph kept", m.graph_.get() == g);
  }
}
void C42_enable_save(Mapper & m, const Request & q, const Response & r)
{
  action_(m, q, r, ndt_2d::srv::Configure::Request::ENABLE_MAPPING + ndt_2d::srv::Configure::Request::SAVE_TO_FILE);
}
void C42_disable_load(Mapper & m, const Request & q, const Response & r)
{
  action_(m, q, r, ndt_2d::srv::Configure::Request::DISABLE_MAPPING + ndt_2d::srv::Configure::Request::LOAD_FROM_FILE);
}
void C42_disable_save(Mapper & m, const Request & q, const Response & r)
{
  action_(m, q, r, ndt_2d::srv::Configure::Request::DISABLE_MAPPING + ndt_2d::srv::Configure::Request::SAVE_TO_FILE);
}
void C42_nothing(Mapper & m, const Request & q, const Response & r)
{
  spec::loads = spec::saves = 0;
  q->action = 0;
  bool enabled = snapshot(static_cast<bool>(m.enable_mapping_)), init = snapshot(m.prev_odom_pose_is_initialized_);
  m.configure(q, r);
  same("not loaded", spec::loads, 0);
  same("not saved", spec::saves, 0);
  same("mapping as before", static_cast<bool>(m.enable_mapping_), enabled);
  same("localization as before", m.prev_odom_pose_is_initialized_, init);
}

// ---------------------------------------------------------------- localization first
typedef geometry_msgs::msg::PoseWithCovarianceStamped::ConstSharedPtr PoseMsg;
typedef sensor_msgs::msg::LaserScan::ConstSharedPtr LaserMsg;
struct State
{
  size_t scans, constraints;
  Pose2d robot, odom;
  bool localized, mapping;
  const Graph * graph;
  int updates, measures, resamples, inits, matches, particles;
};
static State state_(Mapper & m)
{
  State s;
  s.scans = m.graph_->scans.size();
  s.constraints = m.graph_->constraints.size();
  s.robot = m.prev_robot_pose_;
  s.odom = m.prev_odom_pose_;
  s.localized = m.prev_odom_pose_is_initialized_;
  s.mapping = m.enable_mapping_;
  s.graph = m.graph_.get();
  s.updates = spec::filter.updates;
  s.measures = spec::filter.measures;
  s.resamples = spec::filter.resamples;
  s.inits = spec::filter.inits;
  s.matches = spec::matched.count;
  return s;
}
static void unchanged_(Mapper & m, const State & b)
{
  State s = state_(m);
  same("number of scans", s.scans, b.scans);
  same("number of constraints", s.constraints, b.constraints);
  same("tracked x", s.robot.x, b.robot.x);
  same("tracked y", s.robot.y, b.robot.y);
  same("tracked heading", s.robot.theta, b.robot.theta);
  same("odometry x", s.odom.x, b.odom.x);
  same("odometry y", s.odom.y, b.odom.y);
  same("odometry heading", s.odom.theta, b.odom.theta);
  same("localized", s.localized, b.localized);
  same("mapping", s.mapping, b.mapping);
  holds("same graph", s.graph == b.graph);
  same("particles moved", s.updates, b.updates);
  same("particles weighted", s.measures, b.measures);
  same("particles resampled", s.resamples, b.resamples);
  same("particles initialized", s.inits, b.inits);
}
void C30_laser(Mapper & m, const LaserMsg & msg)
{
  assume(!m.prev_odom_pose_is_initialized_);
  State b = state_(m);
  m.laserCallback(msg);
  unchanged_(m, b);
  same("nothing matched", spec::matched.count, b.matches);
}
void C30_after_load(Mapper & m, const Request & q, const Response & r)
{
  q->action = ndt_2d::srv::Configure::Request::LOAD_FROM_FILE;
  m.configure(q, r);
  holds("not localized in a loaded map", !m.prev_odom_pose_is_initialized_);
}
void C30_after_disable(Mapper & m, const Request & q, const Response & r)
{
  q->action = ndt_2d::srv::Configure::Request::DISABLE_MAPPING;
  m.configure(q, r);
  holds("not localized after disabling", !m.prev_odom_pose_is_initialized_);
}
void C30_enabling_does_not_localize(Mapper & m, const Request & q, const Response & r)
{
  assume(!m.prev_odom_pose_is_initialized_);
  m.configure(q, r);
  holds("no request localizes", !m.prev_odom_pose_is_initialized_);
}
void C30_frame(Mapper & m, const PoseMsg & msg)
{
  assume(msg->header.frame_id != "map");
  State b = state_(m);
  m.poseCallback(msg);
  unchanged_(m, b);
}
void C30_no_odometry(Mapper & m, const PoseMsg & msg)
{
  no_throw("no exception");
  assume(fails_(m.odom_frame_, m.robot_frame_, 0));
  State b = state_(m);
  m.poseCallback(msg);
  unchanged_(m, b);
}
void C30_already(Mapper & m, const PoseMsg & msg)
{
  assume(m.enable_mapping_);
  assume(m.prev_odom_pose_is_initialized_);
  State b = state_(m);
  m.poseCallback(msg);
  unchanged_(m, b);
}
void C30_too_far(Mapper & m, const PoseMsg & msg)
{
  m.use_particle_filter_ = false;
  assume(m.enable_mapping_);
  spec::candidates.clear();
  State b = state_(m);
  m.poseCallback(msg);
  unchanged_(m, b);
}
static void accept_(Mapper & m, const PoseMsg & msg)
{
  assume(msg->header.frame_id == "map");
  assume(!fails_(m.odom_frame_, m.robot_frame_, 0));
}
static void localized_(Mapper & m, const PoseMsg & msg)
{
  holds("localized", m.prev_odom_pose_is_initialized_);
  same("tracked x", m.prev_robot_pose_.x, msg->pose.pose.position.x);
  same("tracked y", m.prev_robot_pose_.y, msg->pose.pose.position.y);
  same("tracked heading", m.prev_robot_pose_.theta, yaw_(msg->pose.pose.orientation));
  Pose2d o = at_(m.odom_frame_, m.robot_frame_, 0);
  same("odometry x", m.prev_odom_pose_.x, o.x);
  same("odometry y", m.prev_odom_pose_.y, o.y);
}
void C30_accept_localizing(Mapper & m, const PoseMsg & msg)
{
  accept_(m, msg);
  m.use_particle_filter_ = false;
  m.enable_mapping_ = false;
  m.poseCallback(msg);
  localized_(m, msg);
}
void C30_accept_filter(Mapper & m, const PoseMsg & msg)
{
  accept_(m, msg);
  m.use_particle_filter_ = true;
  m.enable_mapping_ = false;
  spec::filter.inits = 0;
  m.poseCallback(msg);
  localized_(m, msg);
  same("particles initialized once", spec::filter.inits, 1);
  same("particles x", spec::filter.x, msg->pose.pose.position.x);
  same("particles y", spec::filter.y, msg->pose.pose.position.y);
  same("particles heading", spec::filter.theta, yaw_(msg->pose.pose.orientation));
  same("deviation x", spec::filter.sx, sqrt(msg->pose.covariance[0]));
  same("deviation y", spec::filter.sy, sqrt(msg->pose.covariance[7]));
  same("deviation heading", spec::filter.st, sqrt(msg->pose.covariance[35]));
}
void C30_accept_mapping(Mapper & m, const PoseMsg & msg, size_t near, size_t far)
{
  accept_(m, msg);
  m.use_particle_filter_ = false;
  m.enable_mapping_ = true;
  m.prev_odom_pose_is_initialized_ = false;
  spec::candidates.clear();
  spec::candidates.push_back(near);
  spec::candidates.push_back(far);
  size_t n = m.graph_->scans.size(), k = m.graph_->constraints.size();
  assume(near < n);
  m.poseCallback(msg);
  localized_(m, msg);
  same("scan added", m.graph_->scans.size(), n + 1);
  same("constraint added", m.graph_->constraints.size(), k + 1);
  same("added x", m.graph_->scans[n]->pose_.x, msg->pose.pose.position.x);
  same("added heading", m.graph_->scans[n]->pose_.theta, yaw_(msg->pose.pose.orientation));
  const Constraint & c = *m.graph_->constraints[k];
  same("from the nearest scan", c.begin, m.graph_->scans[near]->id_);
  same("to the new scan", c.end, n);
  holds("announced", m.map_update_available_);
}

// ---------------------------------------------------------------- laser scans
// The laser has been set up, the robot is localized, all transforms are available
static void ready_(Mapper & m, const LaserMsg & msg)
{
  assume(msg->ranges.size() > 0);
  assume(m.laser_frame_ != "");
  assume(m.range_max_ >= 0.0);
  m.prev_odom_pose_is_initialized_ = true;
}
static long start_stamp_(const LaserMsg & msg) {return rclcpp::Time(msg->header.stamp).nanoseconds();}
static long end_stamp_(const LaserMsg & msg)
{
  return (rclcpp::Time(rclcpp::Time(msg->header.stamp) + rclcpp::Duration::from_seconds(
            static_cast<double>(msg->ranges.size() - 1) * static_cast<double>(msg->time_increment)))).nanoseconds();
}
static void transforms_(Mapper & m, const LaserMsg & msg)
{
  assume(!fails_(m.odom_frame_, m.robot_frame_, start_stamp_(msg)));
  assume(!fails_(m.odom_frame_, m.robot_frame_, end_stamp_(msg)));
}
static Pose2d odometry_(Mapper & m, long stamp)
{
  Pose2d p = at_(m.odom_frame_, m.robot_frame_, stamp);
  geometry_msgs::msg::Quaternion q;
  q.x = q.y = q.z = 0.0;
  q.w = p.theta;
  return Pose2d(p.x, p.y, yaw_(q));
}
static void localizing_(Mapper & m)
{
  m.use_particle_filter_ = false;
  m.enable_mapping_ = false;
}
static void filtering_(Mapper & m)
{
  m.use_particle_filter_ = true;
  m.enable_mapping_ = false;
}
static void mapping_(Mapper & m)
{
  m.use_particle_filter_ = false;
  m.enable_mapping_ = true;
}
static void moved_(Mapper & m, const LaserMsg & msg)
{
  assume(m.graph_->scans.size() > 0);
  m.minimum_travel_distance_ = 0.0;
  m.minimum_travel_rotation_ = 0.0;
}

void C28_laser(Mapper & m, const LaserMsg & msg, size_t i)
{
  ready_(m, msg);
  transforms_(m, msg);
  moved_(m, msg);
  mapping_(m);
  size_t n = m.graph_->scans.size();
  assume(i < n);
  const Scan * old = m.graph_->scans[i].get();
  m.laserCallback(msg);
  same("one scan appended", m.graph_->scans.size(), n + 1);
  same("id is the index", m.graph_->scans[n]->id_, n);
  holds("earlier scans stay where they are", m.graph_->scans[i].get() == old);
}
void C28_first(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  mapping_(m);
  m.graph_->scans.clear();
  m.laserCallback(msg);
  same("one scan appended", m.graph_->scans.size(), 1ul);
  same("id is the index", m.graph_->scans[0]->id_, 0ul);
}
void C28_pose(Mapper & m, const PoseMsg & msg, size_t near, size_t i)
{
  accept_(m, msg);
  mapping_(m);
  m.prev_odom_pose_is_initialized_ = false;
  spec::candidates.clear();
  spec::candidates.push_back(near);
  size_t n = m.graph_->scans.size();
  assume(near < n);
  assume(i < n);
  const Scan * old = m.graph_->scans[i].get();
  m.poseCallback(msg);
  same("one scan appended", m.graph_->scans.size(), n + 1);
  same("id is the index", m.graph_->scans[n]->id_, n);
  holds("earlier scans stay where they are", m.graph_->scans[i].get() == old);
}
void C29_laser(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  mapping_(m);
  moved_(m, msg);
  m.laserCallback(msg);
  holds("an extended map is announced", m.map_update_available_);
}
void C29_first(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  mapping_(m);
  m.graph_->scans.clear();
  m.laserCallback(msg);
  holds("a map with its first scan is announced", m.map_update_available_);
}
void C29_pose(Mapper & m, const PoseMsg & msg, size_t near)
{
  accept_(m, msg);
  mapping_(m);
  m.prev_odom_pose_is_initialized_ = false;
  spec::candidates.clear();
  spec::candidates.push_back(near);
  assume(near < m.graph_->scans.size());
  m.poseCallback(msg);
  holds("a map extended by the initial pose is announced", m.map_update_available_);
}

// ---------------------------------------------------------------- mapping disabled
static void graph_unchanged_(Mapper & m, const State & b)
{
  State s = state_(m);
  same("number of scans", s.scans, b.scans);
  same("number of constraints", s.constraints, b.constraints);
  holds("same graph", s.graph == b.graph);
  same("mapping", s.mapping, b.mapping);
  same("nothing added to a local map", spec::added.count, 0);
}
void C31_localizing(Mapper & m, const LaserMsg & msg, size_t i)
{
  ready_(m, msg);
  transforms_(m, msg);
  localizing_(m);
  spec::added.count = 0;
  State b = state_(m);
  assume(i < b.scans);
  const Pose2d p = m.graph_->scans[i]->pose_;
  m.laserCallback(msg);
  graph_unchanged_(m, b);
  same("scan not moved", m.graph_->scans[i]->pose_.x, p.x);
  same("scan not turned", m.graph_->scans[i]->pose_.theta, p.theta);
}
// with nothing in the map yet, and for any map whose scans are not looked at one by one
void C31_localizing_any(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  localizing_(m);
  spec::added.count = 0;
  State b = state_(m);
  m.laserCallback(msg);
  graph_unchanged_(m, b);
}
void C31_filter_any(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  filtering_(m);
  spec::added.count = 0;
  State b = state_(m);
  m.laserCallback(msg);
  graph_unchanged_(m, b);
}
void C31_filter(Mapper & m, const LaserMsg & msg, size_t i)
{
  ready_(m, msg);
  transforms_(m, msg);
  m.use_particle_filter_ = true;
  spec::added.count = 0;
  State b = state_(m);
  assume(i < b.scans);
  const Pose2d p = m.graph_->scans[i]->pose_;
  m.laserCallback(msg);
  graph_unchanged_(m, b);
  same("scan not moved", m.graph_->scans[i]->pose_.x, p.x);
  same("scan not turned", m.graph_->scans[i]->pose_.theta, p.theta);
}
void C31_pose(Mapper & m, const PoseMsg & msg)
{
  accept_(m, msg);
  m.enable_mapping_ = false;
  State b = state_(m);
  m.poseCallback(msg);
  same("number of scans", m.graph_->scans.size(), b.scans);
  same("number of constraints", m.graph_->constraints.size(), b.constraints);
}
void C31_enable(Mapper & m, const Request & q, const Response & r)
{
  m.use_particle_filter_ = true;
  m.enable_mapping_ = false;
  m.configure(q, r);
  holds("no mapping with a particle filter", !m.enable_mapping_);
}
void C31_thread(Mapper & m)
{
  spec::rounds = 1;
  spec::optimizations = spec::matched.count = spec::searches = 0;
  m.enable_mapping_ = false;
  State b = state_(m);
  size_t n = m.global_scans_processed_;
  m.loopClosureThread();
  unchanged_(m, b);
  same("no search", spec::searches, 0);
  same("nothing matched", spec::matched.count, 0);
  same("no optimization", spec::optimizations, 0);
  same("no scan examined", m.global_scans_processed_, n);
}

// ---------------------------------------------------------------- failed transforms
void C32_start(Mapper & m, const LaserMsg & msg)
{
  no_throw("no exception");
  ready_(m, msg);
  assume(fails_(m.odom_frame_, m.robot_frame_, start_stamp_(msg)));
  State b = state_(m);
  m.laserCallback(msg);
  unchanged_(m, b);
}
void C32_end(Mapper & m, const LaserMsg & msg)
{
  no_throw("no exception");
  ready_(m, msg);
  assume(fails_(m.odom_frame_, m.robot_frame_, end_stamp_(msg)));
  State b = state_(m);
  m.laserCallback(msg);
  unchanged_(m, b);
}
void C32_setup(Mapper & m, const LaserMsg & msg)
{
  no_throw("no exception");
  m.laser_frame_ = "";
  assume(fails_(m.robot_frame_, msg->header.frame_id, 0));
  spec::created = 0;
  State b = state_(m);
  m.laserCallback(msg);
  unchanged_(m, b);
  holds("setup is repeated with the next scan", m.laser_frame_ == "");
  same("no matcher made", spec::created, 0);
}
void C32_pose(Mapper & m, const PoseMsg & msg)
{
  no_throw("no exception");
  assume(fails_(m.odom_frame_, m.robot_frame_, 0));
  State b = state_(m);
  m.poseCallback(msg);
  unchanged_(m, b);
}

// ---------------------------------------------------------------- measurements
static double range_(const LaserMsg & msg, size_t i) {return msg->ranges[i];}
void C33_empty(Mapper & m, const LaserMsg & msg)
{
  no_throw("no exception");
  assume(msg->ranges.size() == 0);
  State b = state_(m);
  int n = spec::matched.count;
  m.laserCallback(msg);
  unchanged_(m, b);
  same("nothing matched", spec::matched.count, n);
}
static size_t usable_(const LaserMsg & msg, double range_max)
{
  size_t n = 0;
  for (size_t i = 0; i < msg->ranges.size(); ++i)
  {
    if (std::isfinite(msg->ranges[i]) && msg->ranges[i] <= range_max) {++n;}
  }
  return n;
}
void C33_normal(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  localizing_(m);
  m.graph_->scans.clear();
  m.laser_inverted_ = false;
  double range_max = m.range_max_;
  m.laserCallback(msg);
  same("usable measurements", spec::matched.points.size(), usable_(msg, range_max));
  same("maximum range kept", m.range_max_, range_max);
}
void C33_inverted(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  localizing_(m);
  m.graph_->scans.clear();
  m.laser_inverted_ = true;
  double range_max = m.range_max_;
  m.laserCallback(msg);
  same("usable measurements", spec::matched.points.size(), usable_(msg, range_max));
}
void C33_sensor_range(Mapper & m, const LaserMsg & msg)
{
  assume(msg->ranges.size() > 0);
  assume(m.laser_frame_ != "");
  transforms_(m, msg);
  localizing_(m);
  assume(m.range_max_ < 0.0);
  m.prev_odom_pose_is_initialized_ = true;
  m.graph_->scans.clear();
  m.laser_inverted_ = false;
  m.laserCallback(msg);
  same("usable measurements", spec::matched.points.size(), usable_(msg, msg->range_max));
  same("maximum range is that of the sensor", m.range_max_, static_cast<double>(msg->range_max));
}

// ---------------------------------------------------------------- projection
static Point project_(Mapper & m, const LaserMsg & msg, size_t i, double sign)
{
  const Pose2d l = m.laser_transform_;
  Pose2d a = odometry_(m, start_stamp_(msg)), b = odometry_(m, end_stamp_(msg));
  double r = msg->ranges[i];
  double angle = sign * (msg->angle_min + i * msg->angle_increment);
  // in the laser frame, then in the robot frame at the time of the measurement
  double lx = r * cos(angle), ly = r * sin(angle);
  double x = cos(l.theta) * lx - sin(l.theta) * ly + l.x, y = sin(l.theta) * lx + cos(l.theta) * ly + l.y;
  // motion of the robot, in the robot frame at the start of the scan
  double f = static_cast<double>(i) / msg->ranges.size();
  double ox = b.x - a.x, oy = b.y - a.y, ot = angles::shortest_angular_distance(a.theta, b.theta);
  double tx = cos(a.theta) * ox + sin(a.theta) * oy, ty = -sin(a.theta) * ox + cos(a.theta) * oy;
  double c = cos(ot * f), s = sin(ot * f);
  return Point(c * x - s * y + f * tx, s * x + c * y + f * ty);
}
static std::vector<Point> projected_(Mapper & m, const LaserMsg & msg)
{
  std::vector<Point> out;
  for (size_t i = 0; i < msg->ranges.size(); ++i)
  {
    if (std::isfinite(msg->ranges[i]) && msg->ranges[i] <= m.range_max_) {out.push_back(project_(m, msg, i, 1.0));}
  }
  return out;
}
static std::vector<Point> projected_inverted_(Mapper & m, const LaserMsg & msg)
{
  std::vector<Point> out;
  for (size_t n = 0; n < msg->ranges.size(); ++n)
  {
    size_t i = msg->ranges.size() - 1 - n;
    if (std::isfinite(msg->ranges[i]) && msg->ranges[i] <= m.range_max_) {out.push_back(project_(m, msg, i, -1.0));}
  }
  return out;
}
void C34_localizing(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  localizing_(m);
  m.graph_->scans.clear();
  m.laser_inverted_ = false;
  m.laserCallback(msg);
  same("points", spec::matched.points, projected_(m, msg));
}
void C34_inverted(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  localizing_(m);
  m.graph_->scans.clear();
  m.laser_inverted_ = true;
  m.laserCallback(msg);
  same("points", spec::matched.points, projected_inverted_(m, msg));
}
void C34_filter(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  filtering_(m);
  m.graph_->scans.clear();
  m.laser_inverted_ = false;
  m.laserCallback(msg);
  same("points", spec::filter.points, projected_(m, msg));
}
void C34_mapping(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  mapping_(m);
  m.graph_->scans.clear();
  m.laser_inverted_ = false;
  m.laserCallback(msg);
  same("points", m.graph_->scans[0]->points_, projected_(m, msg));
}
// pose of the laser on the robot
void C34_setup(Mapper & m, const LaserMsg & msg)
{
  assume(msg->ranges.size() > 0);
  m.laser_frame_ = "";
  bool inverted = m.laser_inverted_;
  assume(!fails_(m.robot_frame_, msg->header.frame_id, 0));
  m.prev_odom_pose_is_initialized_ = false;
  m.laserCallback(msg);
  Pose2d t = at_(m.robot_frame_, msg->header.frame_id, 0);
  double roll = any_real("roll", m.robot_frame_, msg->header.frame_id), pitch = any_real("pitch", m.robot_frame_, msg->header.frame_id);
  same("laser x", m.laser_transform_.x, t.x);
  same("laser y", m.laser_transform_.y, t.y);
  same("laser heading", m.laser_transform_.theta,
       yaw_(lookup_(*m.tf2_buffer_, m.robot_frame_, msg->header.frame_id).transform.rotation));
  same("inverted", m.laser_inverted_, inverted || fabs(roll) > 0.02 || fabs(pitch) > 0.02);
  same("laser frame", m.laser_frame_, msg->header.frame_id);
}

// ---------------------------------------------------------------- prediction
static Pose2d predicted_(Mapper & m, const LaserMsg & msg)
{
  Pose2d o = odometry_(m, start_stamp_(msg));
  double dx = o.x - m.prev_odom_pose_.x, dy = o.y - m.prev_odom_pose_.y;
  double dt = angles::shortest_angular_distance(m.prev_odom_pose_.theta, o.theta);
  double h = m.prev_robot_pose_.theta - m.prev_odom_pose_.theta;
  return Pose2d(m.prev_robot_pose_.x + cos(h) * dx - sin(h) * dy, m.prev_robot_pose_.y + sin(h) * dx + cos(h) * dy,
                angles::normalize_angle(m.prev_robot_pose_.theta + dt));
}
void C35_pose(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  localizing_(m);
  moved_(m, msg);
  Pose2d p = predicted_(m, msg);
  m.laserCallback(msg);
  same("predicted x", spec::matched.pose.x, p.x);
  same("predicted y", spec::matched.pose.y, p.y);
  same("predicted heading", spec::matched.pose.theta, p.theta);
}
void C35_mapping(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  mapping_(m);
  moved_(m, msg);
  Pose2d p = predicted_(m, msg);
  m.laserCallback(msg);
  same("predicted x", spec::matched.pose.x, p.x);
  same("predicted y", spec::matched.pose.y, p.y);
  same("predicted heading", spec::matched.pose.theta, p.theta);
}
void C35_odometry(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  moved_(m, msg);
  Pose2d o = odometry_(m, start_stamp_(msg));
  m.laserCallback(msg);
  same("odometry x", m.prev_odom_pose_.x, o.x);
  same("odometry y", m.prev_odom_pose_.y, o.y);
  same("odometry heading", m.prev_odom_pose_.theta, o.theta);
}
void C35_skip(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  localizing_(m);
  assume(m.graph_->scans.size() > 0);
  positive(m.minimum_travel_distance_);
  positive(m.minimum_travel_rotation_);
  int n = spec::matched.count;
  Pose2d o = odometry_(m, start_stamp_(msg));
  double dx = o.x - m.prev_odom_pose_.x, dy = o.y - m.prev_odom_pose_.y;
  double dt = angles::shortest_angular_distance(m.prev_odom_pose_.theta, o.theta);
  bool skip = dx * dx + dy * dy < m.minimum_travel_distance_ * m.minimum_travel_distance_ && fabs(dt) < m.minimum_travel_rotation_;
  m.laserCallback(msg);
  same("handled when moved or turned", spec::matched.count, skip ? n : n + 1);
}
void C35_skip_keeps(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  assume(m.graph_->scans.size() > 0);
  positive(m.minimum_travel_distance_);
  positive(m.minimum_travel_rotation_);
  Pose2d o = odometry_(m, start_stamp_(msg));
  double dx = o.x - m.prev_odom_pose_.x, dy = o.y - m.prev_odom_pose_.y;
  double dt = angles::shortest_angular_distance(m.prev_odom_pose_.theta, o.theta);
  assume(dx * dx + dy * dy < m.minimum_travel_distance_ * m.minimum_travel_distance_);
  assume(fabs(dt) < m.minimum_travel_rotation_);
  State b = state_(m);
  m.laserCallback(msg);
  unchanged_(m, b);
}
void C35_first(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  mapping_(m);
  m.graph_->scans.clear();
  Pose2d o = odometry_(m, start_stamp_(msg));
  size_t k = m.graph_->constraints.size();
  m.laserCallback(msg);
  same("added even without movement", m.graph_->scans.size(), 1ul);
  same("starts the map, x", m.graph_->scans[0]->pose_.x, 0.0);
  same("starts the map, y", m.graph_->scans[0]->pose_.y, 0.0);
  same("starts the map, heading", m.graph_->scans[0]->pose_.theta, 0.0);
  same("without a constraint", m.graph_->constraints.size(), k);
  same("odometry x", m.prev_odom_pose_.x, o.x);
  same("odometry y", m.prev_odom_pose_.y, o.y);
  same("odometry heading", m.prev_odom_pose_.theta, o.theta);
  same("tracked x", m.prev_robot_pose_.x, 0.0);
  same("tracked y", m.prev_robot_pose_.y, 0.0);
  same("tracked heading", m.prev_robot_pose_.theta, 0.0);
}

// ---------------------------------------------------------------- local map
void C36_window(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  moved_(m, msg);
  mapping_(m);
  spec::step = 0;
  spec::added.at = spec::cleared.at = spec::matched.at = 0;
  spec::added.count = spec::matched.count = spec::cleared.count = 0;
  size_t n = m.graph_->scans.size();
  Scans last;
  size_t w = (n > m.rolling_depth_) ? m.rolling_depth_ : n;
  for (size_t i = 0; i < w; ++i) {last.push_back(m.graph_->scans[n - w + i]);}
  m.laserCallback(msg);
  same("scans of the local map", spec::added.scans, last);
  same("added at once", spec::added.count, 1);
  same("matched once", spec::matched.count, 1);
  holds("cleared before", spec::cleared.at > 0 && spec::cleared.at < spec::added.at);
  holds("matched afterwards", spec::added.at < spec::matched.at);
  holds("local matcher filled", spec::added.on == m.local_scan_matcher_.get());
  holds("local matcher cleared", spec::cleared.on == m.local_scan_matcher_.get());
  holds("local matcher used", spec::matched.on == m.local_scan_matcher_.get());
}
void C36_first(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  mapping_(m);
  m.graph_->scans.clear();
  spec::matched.count = spec::added.count = 0;
  size_t k = m.graph_->constraints.size();
  m.laserCallback(msg);
  same("nothing to match", spec::matched.count, 0);
  same("no constraint", m.graph_->constraints.size(), k);
  same("added", m.graph_->scans.size(), 1ul);
}

// ---------------------------------------------------------------- corrections
void C37_mapping(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  moved_(m, msg);
  mapping_(m);
  m.graph_->use_barycenter_ = false;
  spec::matched.count = 0;
  size_t n = m.graph_->scans.size(), k = m.graph_->constraints.size();
  ScanPtr last = m.graph_->scans[n - 1];
  Pose2d p = predicted_(m, msg), d = correction_(1);
  m.laserCallback(msg);
  const Scan & scan = *m.graph_->scans[n];
  same("x", scan.pose_.x, p.x + d.x);
  same("y", scan.pose_.y, p.y + d.y);
  same("heading", scan.pose_.theta, p.theta + d.theta);
  same("tracked x", m.prev_robot_pose_.x, p.x + d.x);
  same("tracked y", m.prev_robot_pose_.y, p.y + d.y);
  same("tracked heading", m.prev_robot_pose_.theta, p.theta + d.theta);
  same("one constraint", m.graph_->constraints.size(), k + 1);
  const ConstraintPtr c = m.graph_->constraints[k];
  same("from the previous scan", c->begin, last->id_);
  same("to the new scan", c->end, n);
  Eigen::Matrix3d cov = covariance_(1);
  ConstraintPtr r = makeConstraint(last, m.graph_->scans[n], cov);
  same("relative pose", c->transform, r->transform);
  same("information", c->information, r->information);
  holds("odometry is not switchable", !c->switchable);
}
void C37_localizing(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  moved_(m, msg);
  localizing_(m);
  spec::matched.count = 0;
  Pose2d p = predicted_(m, msg), d = correction_(1);
  m.laserCallback(msg);
  holds("matched against the map", spec::matched.on == m.global_scan_matcher_.get());
  same("tracked x", m.prev_robot_pose_.x, p.x + d.x);
  same("tracked y", m.prev_robot_pose_.y, p.y + d.y);
  same("tracked heading", m.prev_robot_pose_.theta, p.theta + d.theta);
}

// ---------------------------------------------------------------- particle filter
void C45_control(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  moved_(m, msg);
  filtering_(m);
  spec::filter.updates = spec::filter.measures = spec::filter.resamples = 0;
  spec::filter.updated = spec::filter.measured = spec::filter.resampled = spec::filter.meaned = 0;
  Pose2d p = predicted_(m, msg);
  double dx = p.x - m.prev_robot_pose_.x, dy = p.y - m.prev_robot_pose_.y, t = m.prev_robot_pose_.theta;
  double fx = cos(t) * dx + sin(t) * dy, fy = -sin(t) * dx + cos(t) * dy;
  double ft = angles::shortest_angular_distance(t, p.theta);
  m.laserCallback(msg);
  same("forward", spec::filter.dx, fx);
  same("sideways", spec::filter.dy, fy);
  same("turned", spec::filter.dth, ft);
  same("moved once", spec::filter.updates, 1);
  same("weighted once", spec::filter.measures, 1);
  same("resampled once", spec::filter.resamples, 1);
  holds("moved, then weighted", spec::filter.updated < spec::filter.measured);
  holds("weighted, then resampled", spec::filter.measured < spec::filter.resampled);
  holds("pose of the resampled particles", spec::filter.resampled < spec::filter.meaned);
}
void C45_use(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  moved_(m, msg);
  filtering_(m);
  m.laserCallback(msg);
  holds("against the map", spec::filter.matcher == m.global_scan_matcher_.get());
  same("error", spec::filter.kld_err, m.kld_err_);
  same("quantile", spec::filter.kld_z, m.kld_z_);
  same("tracked x", m.prev_robot_pose_.x, any_real("mean x"));
  same("tracked y", m.prev_robot_pose_.y, any_real("mean y"));
  same("tracked heading", m.prev_robot_pose_.theta, any_real("mean theta"));
}

// ---------------------------------------------------------------- setting up and loading
void C44_setup_localizing(Mapper & m, const LaserMsg & msg)
{
  assume(msg->ranges.size() > 0);
  m.laser_frame_ = "";
  localizing_(m);
  assume(!fails_(m.robot_frame_, msg->header.frame_id, 0));
  m.prev_odom_pose_is_initialized_ = false;
  spec::added.count = 0;
  m.laserCallback(msg);
  same("all scans", spec::added.scans, m.graph_->scans);
  same("once", spec::added.count, 1);
  holds("in the matcher for localization", spec::added.on == m.global_scan_matcher_.get());
  holds("after it was set up", spec::global_setup.on == spec::added.on && spec::global_setup.at < spec::added.at);
}
void C44_pose_localizing(Mapper & m, const PoseMsg & msg)
{
  accept_(m, msg);
  m.enable_mapping_ = false;
  assume(m.global_scan_matcher_ != nullptr);
  spec::added.count = spec::cleared.count = 0;
  spec::step = 0;
  spec::added.at = spec::cleared.at = 0;
  m.poseCallback(msg);
  same("all scans of the current map", spec::added.scans, m.graph_->scans);
  same("once", spec::added.count, 1);
  holds("cleared before", spec::cleared.at > 0 && spec::cleared.at < spec::added.at);
  holds("in the matcher for localization", spec::added.on == m.global_scan_matcher_.get());
  holds("which was cleared", spec::cleared.on == m.global_scan_matcher_.get());
}
void C44_pose_filter(Mapper & m, const PoseMsg & msg)
{
  accept_(m, msg);
  filtering_(m);
  assume(m.global_scan_matcher_ != nullptr);
  spec::added.count = spec::cleared.count = 0;
  spec::step = 0;
  spec::added.at = spec::cleared.at = 0;
  m.poseCallback(msg);
  same("all scans of the current map", spec::added.scans, m.graph_->scans);
  holds("cleared before", spec::cleared.at > 0 && spec::cleared.at < spec::added.at);
  holds("in the matcher for localization", spec::added.on == m.global_scan_matcher_.get());
}
void C44_load(Mapper & m, const Request & q, const Response & r)
{
  q->action = ndt_2d::srv::Configure::Request::LOAD_FROM_FILE;
  const Graph * g = snapshot(m.graph_).get();
  m.configure(q, r);
  holds("another graph", m.graph_.get() != g);
  holds("to be localized in", !m.prev_odom_pose_is_initialized_);
}
// the first round on another map
void C44_thread(Mapper & m)
{
  spec::rounds = 1;
  mapping_(m);
  assume(m.global_scan_matcher_ != nullptr);
  assume(m.graph_ != nullptr);
  assume(m.graph_->scans.size() <= m.rolling_depth_);
  const CeresSolver * s = snapshot(m.solver_).get();
  m.loopClosureThread();
  holds("another optimization problem", m.solver_.get() != s);
  same("no scan examined yet", m.global_scans_processed_, 0ul);
  same("nothing optimized yet", m.optimization_last_, 0ul);
}

// ---------------------------------------------------------------- loop closure
// A map whose last scan is to be examined in the second round; the first one only notices the map
static void closing_(Mapper & m, size_t depth)
{
  spec::rounds = 2;
  spec::step = spec::sleeps = 0;
  spec::searches = spec::optimizations = spec::matched.count = spec::added.count = spec::cleared.count = 0;
  spec::added.at = spec::cleared.at = spec::matched.at = 0;
  mapping_(m);
  assume(m.global_scan_matcher_ != nullptr);
  assume(m.graph_ != nullptr);
  size_t n = m.graph_->scans.size();
  assume(n > 0);
  assume(depth < n - 1);
  m.rolling_depth_ = n;
  spec::second.mapper = &m;
  spec::second.depth = depth;
  spec::second.processed = n - 1;
  spec::second.optimized = m.optimization_last_;
  spec::second.graph = nullptr;
  m.global_search_limit_ = 2;
}
void C38_accepted(Mapper & m, size_t depth, size_t i)
{
  closing_(m, depth);
  m.graph_->use_barycenter_ = false;
  size_t n = m.graph_->scans.size(), k = m.graph_->constraints.size();
  assume(i < n - 1 - depth);
  spec::candidates.clear();
  spec::candidates.push_back(i);
  ScanPtr scan = m.graph_->scans[n - 1], candidate = m.graph_->scans[i];
  assume(candidate->points_.size() > 0);
  Pose2d p = scan->pose_, d = correction_(1);
  assume(std::isfinite(score_(1)));
  assume(score_(1) < m.typical_matcher_response_);
  m.loopClosureThread();
  same("matched", spec::matched.id, scan->id_);
  same("one constraint", m.graph_->constraints.size(), k + 1);
  const ConstraintPtr c = m.graph_->constraints[k];
  same("from the candidate", c->begin, candidate->id_);
  same("to the scan", c->end, scan->id_);
  holds("switchable", c->switchable);
  same("corrected x", scan->pose_.x, p.x + d.x);
  same("corrected y", scan->pose_.y, p.y + d.y);
  same("corrected heading", scan->pose_.theta, p.theta + d.theta);
  Eigen::Matrix3d cov = covariance_(1);
  ConstraintPtr r = makeConstraint(candidate, scan, cov);
  same("relative pose", c->transform, r->transform);
  same("information", c->information, r->information);
  holds("announced", m.map_update_available_);
}
static void rejected_(Mapper & m, size_t depth, size_t i)
{
  size_t n = m.graph_->scans.size(), k = m.graph_->constraints.size();
  assume(i < n - 1 - depth);
  spec::candidates.clear();
  spec::candidates.push_back(i);
  m.map_update_available_ = false;
  ScanPtr scan = m.graph_->scans[n - 1];
  Pose2d p = scan->pose_;
  m.loopClosureThread();
  same("no constraint", m.graph_->constraints.size(), k);
  same("scan not moved", scan->pose_.x, p.x);
  same("scan not turned", scan->pose_.theta, p.theta);
  holds("nothing to announce", !m.map_update_available_);
  same("nothing optimized", spec::optimizations, 0);
}
void C38_worse(Mapper & m, size_t depth, size_t i)
{
  closing_(m, depth);
  assume(score_(1) >= m.typical_matcher_response_);
  rejected_(m, depth, i);
}
void C38_not_finite(Mapper & m, size_t depth, size_t i)
{
  closing_(m, depth);
  assume(!std::isfinite(score_(1)));
  rejected_(m, depth, i);
}
void C29_closure(Mapper & m, size_t depth, size_t i)
{
  closing_(m, depth);
  assume(i < m.graph_->scans.size() - 1 - depth);
  spec::candidates.clear();
  spec::candidates.push_back(i);
  assume(m.graph_->scans[i]->points_.size() > 0);
  assume(std::isfinite(score_(1)));
  assume(score_(1) < m.typical_matcher_response_);
  m.loopClosureThread();
  holds("a loop closure is announced", m.map_update_available_);
}
void C39_candidate(Mapper & m, size_t depth, size_t i)
{
  closing_(m, depth);
  size_t n = m.graph_->scans.size(), rolling = n - 1 - depth;
  assume(i < rolling);
  spec::candidates.clear();
  spec::candidates.push_back(i);
  ScanPtr scan = m.graph_->scans[n - 1];
  Pose2d p = scan->pose_;
  assume(m.graph_->scans[i]->points_.size() > 0);
  size_t first = i > 0 ? i - 1 : i, last = i + 1 < rolling ? i + 2 : i + 1;
  Scans around;
  around.assign(m.graph_->scans.begin() + first, m.graph_->scans.begin() + last);
  m.loopClosureThread();
  same("one search", spec::searches, 1);
  same("for the scan", spec::search_id, scan->id_);
  same("from its pose", spec::search_pose.x, p.x);
  same("within the search distance", spec::search_distance, m.global_search_size_);
  same("before the rolling window", static_cast<size_t>(spec::search_limit), rolling);
  same("scans of the candidate map", spec::added.scans, around);
  same("matched scan", spec::matched.id, scan->id_);
  holds("map for this candidate only", spec::cleared.at > 0 && spec::cleared.at < spec::added.at);
  holds("then matched", spec::added.at < spec::matched.at);
  holds("with one matcher", spec::added.on == spec::matched.on && spec::cleared.on == spec::matched.on);
  holds("the global one", spec::matched.on == m.global_scan_matcher_.get());
  same("examined", m.global_scans_processed_, n);
}
void C39_each(Mapper & m, size_t depth, size_t from)
{
  closing_(m, depth);
  size_t n = m.graph_->scans.size();
  assume(depth < from);
  assume(from < n);
  spec::second.processed = from;
  spec::candidates.clear();
  spec::search_ids = 0;
  size_t ids = 0;
  for (size_t j = 0; j < n - from; ++j) {ids += m.graph_->scans[from + j]->id_;}
  m.loopClosureThread();
  same("one search for each scan", static_cast<size_t>(spec::searches), n - from);
  same("different scans", spec::search_ids, ids);
  same("all examined", m.global_scans_processed_, n);
}
// the scans of the first rolling window are never examined
void C39_first(Mapper & m, size_t depth, size_t from)
{
  closing_(m, depth);
  size_t n = m.graph_->scans.size();
  assume(from <= depth);
  spec::second.processed = from;
  spec::candidates.clear();
  spec::search_ids = 0;
  size_t ids = 0;
  for (size_t j = 0; j < n - (depth + 1); ++j) {ids += m.graph_->scans[(depth + 1) + j]->id_;}
  m.loopClosureThread();
  same("one search for each scan after the first window", static_cast<size_t>(spec::searches), n - (depth + 1));
  same("different scans", spec::search_ids, ids);
  same("all examined", m.global_scans_processed_, n);
}
void C39_once(Mapper & m, size_t depth)
{
  closing_(m, depth);
  spec::second.processed = m.graph_->scans.size();
  m.loopClosureThread();
  same("no scan examined again", spec::searches, 0);
  same("nothing matched", spec::matched.count, 0);
}
void C39_too_few(Mapper & m, size_t depth)
{
  closing_(m, depth);
  spec::second.depth = m.graph_->scans.size();
  spec::second.processed = 0;
  m.loopClosureThread();
  same("no search with too few scans", spec::searches, 0);
  same("no scan examined", m.global_scans_processed_, 0ul);
}
static void limited_(Mapper & m, size_t depth, size_t i, size_t j, size_t k, size_t limit, int expected)
{
  closing_(m, depth);
  size_t n = m.graph_->scans.size(), rolling = n - 1 - depth;
  assume(i < rolling);
  assume(j < rolling);
  assume(k < rolling);
  spec::candidates.clear();
  spec::candidates.push_back(i);
  spec::candidates.push_back(j);
  spec::candidates.push_back(k);
  assume(m.graph_->scans[i]->points_.size() > 0);
  assume(m.graph_->scans[j]->points_.size() > 0);
  assume(m.graph_->scans[k]->points_.size() > 0);
  ScanPtr scan = m.graph_->scans[n - 1];
  assume(m.graph_->scans[i] != scan);
  assume(m.graph_->scans[j] != scan);
  assume(m.graph_->scans[k] != scan);
  m.global_search_limit_ = limit;
  m.loopClosureThread();
  same("as many matches as the limit", spec::matched.count, expected);
}
void C39_limit(Mapper & m, size_t depth, size_t i, size_t j, size_t k) {limited_(m, depth, i, j, k, 2, 2);}
void C39_no_limit(Mapper & m, size_t depth, size_t i, size_t j, size_t k) {limited_(m, depth, i, j, k, 4, 3);}
void C39_limit_none(Mapper & m, size_t depth, size_t i, size_t j, size_t k) {limited_(m, depth, i, j, k, 0, 0);}
void C40_optimized(Mapper & m, size_t depth, size_t i)
{
  closing_(m, depth);
  size_t n = m.graph_->scans.size();
  assume(i < n - 1 - depth);
  spec::candidates.clear();
  spec::candidates.push_back(i);
  assume(m.graph_->scans[i]->points_.size() > 0);
  assume(std::isfinite(score_(1)));
  assume(score_(1) < m.typical_matcher_response_);
  size_t last = any_index("optimized before"), k = m.graph_->constraints.size();
  assume(last <= n);
  spec::second.optimized = last;
  assume(n - last > m.optimization_node_limit_);
  m.loopClosureThread();
  same("optimized", spec::optimizations, 1);
  holds("after the match", spec::matched.at < spec::optimized_at);
  holds("by the solver of this map", spec::optimized_by == m.solver_.get());
  same("all scans", spec::optimized_scans, n);
  same("all constraints", spec::optimized_constraints, k + 1);
  same("counted from here", m.optimization_last_, n);
  holds("announced", m.map_update_available_);
}
void C40_too_soon(Mapper & m, size_t depth, size_t i)
{
  closing_(m, depth);
  size_t n = m.graph_->scans.size();
  assume(i < n - 1 - depth);
  spec::candidates.clear();
  spec::candidates.push_back(i);
  size_t last = any_index("optimized before");
  assume(last <= n);
  spec::second.optimized = last;
  assume(n - last <= m.optimization_node_limit_);
  m.loopClosureThread();
  same("not yet optimized", spec::optimizations, 0);
  same("still counted from the last one", m.optimization_last_, last);
}
static void unused_(Mapper & m, size_t depth, size_t i)
{
  size_t n = m.graph_->scans.size();
  assume(i < n - 1 - depth);
  spec::candidates.clear();
  spec::candidates.push_back(i);
  size_t last = any_index("optimized before");
  assume(last <= n);
  spec::second.optimized = last;
  m.loopClosureThread();
  same("no reason to optimize", spec::optimizations, 0);
  same("still counted from the last one", m.optimization_last_, last);
}
void C40_rejected(Mapper & m, size_t depth, size_t i)
{
  closing_(m, depth);
  assume(score_(1) >= m.typical_matcher_response_);
  unused_(m, depth, i);
}
void C40_not_finite(Mapper & m, size_t depth, size_t i)
{
  closing_(m, depth);
  assume(!std::isfinite(score_(1)));
  unused_(m, depth, i);
}
void C40_no_closure(Mapper & m, size_t depth)
{
  closing_(m, depth);
  spec::candidates.clear();
  m.map_update_available_ = false;
  size_t last = any_index("optimized before");
  spec::second.optimized = last;
  m.loopClosureThread();
  same("nothing to optimize", spec::optimizations, 0);
  same("still counted from the last one", m.optimization_last_, last);
  holds("nothing to announce", !m.map_update_available_);
}
// another map is loaded between two rounds
void C44_reloaded(Mapper & m, size_t depth, const GraphPtr & other)
{
  closing_(m, depth);
  assume(other != nullptr);
  assume(other != m.graph_);
  spec::second.graph = other;
  spec::second.depth = other->scans.size();
  m.loopClosureThread();
  same("no scan examined", m.global_scans_processed_, 0ul);
  same("nothing optimized", m.optimization_last_, 0ul);
  same("no search", spec::searches, 0);
}

// ---------------------------------------------------------------- what is published
static bool read_now_(const builtin_interfaces::msg::Time & stamp)
{
  const long t = rclcpp::Time(stamp).nanoseconds();
  return (spec::nows >= 1 && t == static_cast<long>(any_index("time", 1))) || (spec::nows >= 2 && t == static_cast<long>(any_index("time", 2))) ||
         (spec::nows >= 3 && t == static_cast<long>(any_index("time", 3)));
}
void C48_map(Mapper & m)
{
  spec::rounds = 1;
  spec::nows = 0;
  assume(m.map_update_available_);
  m.mapPublishThread();
  same("frame of the map", m.map_pub_->last.header.frame_id, std::string("map"));
  holds("time of the map", read_now_(m.map_pub_->last.header.stamp));
  holds("time of the graph", read_now_(spec::graph_stamp));
}
void C48_transform(Mapper & m)
{
  spec::rounds = 1;
  spec::nows = 0;
  assume(m.graph_->scans.size() > 0);
  assume(!m.map_update_available_);
  m.mapPublishThread();
  holds("time of the transform", read_now_(m.tf2_broadcaster_->last.header.stamp));
}
void C48_pose(Mapper & m, const PoseMsg & msg)
{
  accept_(m, msg);
  m.enable_mapping_ = false;
  assume(m.use_particle_filter_);
  spec::step = spec::filter.initialized = spec::filter_msg_at = 0;
  spec::nows = 0;
  int before = m.particle_pub_->count;
  m.poseCallback(msg);
  same("particles published", m.particle_pub_->count, before + 1);
  same("frame of the particles", m.particle_pub_->last.header.frame_id, std::string("map"));
  same("all particles", m.particle_pub_->last.poses.size(), 9ul);
  holds("the new particles", spec::filter.initialized > 0 && spec::filter.initialized < spec::filter_msg_at);
  holds("time of the particles", read_now_(m.particle_pub_->last.header.stamp));
}
void C48_laser(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  moved_(m, msg);
  filtering_(m);
  spec::step = spec::filter.resampled = spec::filter_msg_at = 0;
  spec::nows = 0;
  int before = m.particle_pub_->count;
  m.laserCallback(msg);
  same("particles published", m.particle_pub_->count, before + 1);
  same("frame of the particles", m.particle_pub_->last.header.frame_id, std::string("map"));
  same("all particles", m.particle_pub_->last.poses.size(), 9ul);
  holds("the resampled particles", spec::filter.resampled > 0 && spec::filter.resampled < spec::filter_msg_at);
  holds("time of the particles", read_now_(m.particle_pub_->last.header.stamp));
}

// ---------------------------------------------------------------- interface of the node
void C49_node(const rclcpp::NodeOptions & options)
{
  Mapper m(options);
  same("topic of the map", m.map_pub_->topic, std::string("map"));
  holds("the last map is kept", m.map_pub_->keeps);
  holds("and delivered reliably", m.map_pub_->sure);
  holds("at least one", m.map_pub_->depth >= 1);
  same("topic of the graph", m.graph_pub_->topic, std::string("graph"));
  same("topic of the laser", m.laser_sub_->topic, std::string("scan"));
  same("topic of the initial pose", m.pose_sub_->topic, std::string("initialpose"));
  same("service", m.configure_srv_->name, std::string("configure"));
}
void C49_filter(const rclcpp::NodeOptions & options)
{
  assume(spec::parameter<bool>("use_particle_filter"));
  Mapper m(options);
  same("topic of the particles", m.particle_pub_->topic, std::string("particlecloud"));
}

// ---------------------------------------------------------------- parameters
template <class T> static T value_(const std::string & name) {return spec::parameter<T>(name);}
void C41_mapper(const rclcpp::NodeOptions & options)
{
  Mapper m(options);
  same("resolution", m.map_resolution_, value_<double>("resolution"));
  same("minimum_travel_distance", m.minimum_travel_distance_, value_<double>("minimum_travel_distance"));
  same("minimum_travel_rotation", m.minimum_travel_rotation_, value_<double>("minimum_travel_rotation"));
  same("rolling_depth", m.rolling_depth_, static_cast<size_t>(value_<int>("rolling_depth")));
  same("robot_frame", m.robot_frame_, value_<std::string>("robot_frame"));
  same("odom_frame", m.odom_frame_, value_<std::string>("odom_frame"));
  same("transform_timeout", m.transform_timeout_, value_<double>("transform_timeout"));
  same("use_barycenter", m.use_barycenter_, value_<bool>("use_barycenter"));
  same("global_search_size", m.global_search_size_, value_<double>("global_search_size"));
  same("global_search_limit", m.global_search_limit_, static_cast<size_t>(value_<int>("global_search_limit")));
  same("optimization_node_limit", m.optimization_node_limit_, static_cast<size_t>(value_<int>("optimization_node_limit")));
  same("use_particle_filter", m.use_particle_filter_, value_<bool>("use_particle_filter"));
  same("scan_matcher_type", m.scan_matcher_type_, value_<std::string>("scan_matcher_type"));
  same("max_range", m.range_max_, value_<double>("max_range"));
  same("default of max_range", spec::default_max_range, -1.0);
  same("default of scan_matcher_type", spec::default_matcher, std::string("ndt_2d::ScanMatcherNDT"));
  same("resolution of the map", m.grid_->resolution_, value_<double>("resolution"));
  same("occupancy_threshold", m.grid_->occ_thresh_, value_<double>("occupancy_threshold"));
  same("kind of poses", m.graph_->use_barycenter_, value_<bool>("use_barycenter"));
}
void C41_mapping(const rclcpp::NodeOptions & options)
{
  assume(!value_<bool>("use_particle_filter"));
  Mapper m(options);
  same("enable_mapping", static_cast<bool>(m.enable_mapping_), value_<bool>("enable_mapping"));
}
void C41_filter(const rclcpp::NodeOptions & options)
{
  assume(value_<bool>("use_particle_filter"));
  Mapper m(options);
  same("kld_err", m.kld_err_, value_<double>("kld_err"));
  same("kld_z", m.kld_z_, value_<double>("kld_z"));
  same("min_particles", m.filter_->min_particles_, static_cast<size_t>(value_<int>("min_particles")));
  same("max_particles", m.filter_->max_particles_, static_cast<size_t>(value_<int>("max_particles")));
  same("odom_alpha1", m.filter_->motion_model_->a1_, value_<double>("odom_alpha1"));
  same("odom_alpha2", m.filter_->motion_model_->a2_, value_<double>("odom_alpha2"));
  same("odom_alpha3", m.filter_->motion_model_->a3_, value_<double>("odom_alpha3"));
  same("odom_alpha4", m.filter_->motion_model_->a4_, value_<double>("odom_alpha4"));
  same("odom_alpha5", m.filter_->motion_model_->a5_, value_<double>("odom_alpha5"));
  holds("mapping disabled", !m.enable_mapping_);
}
void C41_no_file(const rclcpp::NodeOptions & options)
{
  spec::loads = 0;
  assume(value_<std::string>("map_file") == "");
  Mapper m(options);
  same("nothing loaded", spec::loads, 0);
  same("no scans", m.graph_->scans.size(), 0ul);
  holds("localized where it starts", m.prev_odom_pose_is_initialized_);
}
void C41_file(const rclcpp::NodeOptions & options)
{
  spec::loads = 0;
  assume(value_<std::string>("map_file") != "");
  Mapper m(options);
  same("map loaded", spec::loads, 1);
  same("file", spec::file, value_<std::string>("map_file"));
  holds("to be localized in", !m.prev_odom_pose_is_initialized_);
}
void C41_load(Mapper & m, const Request & q, const Response & r)
{
  q->action = ndt_2d::srv::Configure::Request::LOAD_FROM_FILE;
  m.configure(q, r);
  same("use_barycenter", m.graph_->use_barycenter_, m.use_barycenter_);
}
void C41_timeout(Mapper & m, const LaserMsg & msg)
{
  ready_(m, msg);
  transforms_(m, msg);
  localizing_(m);
  moved_(m, msg);
  m.laserCallback(msg);
  same("transform_timeout", spec::waited, static_cast<double>(tf2::durationFromSec(m.transform_timeout_).count()));
}
void C41_range(Mapper & m, const LaserMsg & msg)
{
  assume(msg->ranges.size() > 0);
  m.laser_frame_ = "";
  assume(!fails_(m.robot_frame_, msg->header.frame_id, 0));
  m.prev_odom_pose_is_initialized_ = false;
  spec::global_setup.count = spec::local_setup.count = spec::created = 0;
  double r = m.range_max_ < 0.0 ? msg->range_max : m.range_max_;
  m.laserCallback(msg);
  same("global matcher set up", spec::global_setup.count, 1);
  same("local matcher set up", spec::local_setup.count, 1);
  same("max_range of the global matcher", spec::global_setup.range, r);
  same("max_range of the local matcher", spec::local_setup.range, r);
  holds("global matcher", spec::global_setup.on == m.global_scan_matcher_.get());
  holds("local matcher", spec::local_setup.on == m.local_scan_matcher_.get());
  holds("two matchers", m.local_scan_matcher_.get() != m.global_scan_matcher_.get());
  same("two matchers made", spec::created, 2);
  same("type of the first matcher", spec::first_type, m.scan_matcher_type_);
  same("type of the second matcher", spec::second_type, m.scan_matcher_type_);
}
void C30_file(const rclcpp::NodeOptions & options)
{
  assume(value_<std::string>("map_file") != "");
  Mapper m(options);
  holds("not localized in a loaded map", !m.prev_odom_pose_is_initialized_);
}
void C29_file(const rclcpp::NodeOptions & options)
{
  assume(value_<std::string>("map_file") != "");
  Mapper m(options);
  holds("a loaded map is announced", m.map_update_available_);
}
void C31_start(const rclcpp::NodeOptions & options)
{
  assume(value_<bool>("use_particle_filter"));
  Mapper m(options);
  holds("no mapping with a particle filter", !m.enable_mapping_);
}
}
