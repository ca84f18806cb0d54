#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
S = 'src/'; I = 'include/ndt_2d/'
p("C01", "Barycenter always reflects the scan's current pose and points",
  "Whatever sequence of pose and point changes a scan has gone through, its barycenter is its current pose translated by the mean of its current points rotated by the current heading (heading unchanged; the pose itself when there are no points). Asking for a value never changes the scan, and pose, points and id read back exactly as last set.",
  ["histories", "inputs"], "every history of setPose/setPoints/get calls and every pose and point set",
  "No test calls the barycenter at all; freshness quantifies over call histories.",
  [S+'scan.cpp', I+'scan.hpp'], [("dirty flag set by both setters, recomputed on demand", "Scan::setPose, Scan::setPoints, Scan::update")],
  ["Scan::getBarycenterPose"])
p("C02", "A constraint holds the relative pose of its two scans",
  "A constraint made between two scans records their ids in order, the position of the second in the frame of the first (map difference rotated by minus the first heading), the heading difference second minus first, and the inverse of the given covariance as information. It is not switchable unless its creator says so.",
  ["inputs"], "all poses, headings and invertible covariances",
  "The solver test builds constraints by hand; makeConstraint is never called by a test.",
  [S+'constraint.cpp'], [("makeConstraint", S+'constraint.cpp')], ["ndt_2d::makeConstraint result"])
p("C03", "NDT cell statistics equal those of the points added to it",
  "After any sequence of points, a cell's count and mean are those of exactly these points and, once computed with at least three points, its covariance is the unbiased sample covariance (symmetric). Its information matrix is the inverse of that covariance with the smaller eigenvalue taken as at least 0.001 of the larger in the determinant; adding a point makes the computed values stale and computing again refreshes them.",
  ["histories", "inputs"], "all point sequences and interleavings of addPoint and compute",
  "Tests add fifteen fixed points; the incremental update must hold for every count and order.",
  [S+'ndt_model.cpp'], [("incremental mean and correlation", "Cell::addPoint"), ("covariance and information", "Cell::compute")],
  ["Cell::mean", "Cell::covariance", "Cell::information"])
p("C04", "Every map point falls into its own cell; outside means no contribution",
  "A coordinate inside the grid is mapped to the cell whose square contains it, so that distinct cells never share storage and all accesses stay in bounds. Coordinates outside the grid on any side, however far, and NaN are ignored when adding and score zero.",
  ["inputs", "configurations"], "all coordinates including NaN, infinities and huge values, all grid sizes and origins",
  "The test uses one grid and a handful of points inside it.",
  [S+'ndt_model.cpp'], [("getIndex", "NDT::getIndex"), ("grid sized to cover size/resolution", "NDT::NDT")],
  ["NDT::addScan", "NDT::likelihood"])
p("C05", "Points are added and queried through the same pose transform",
  "Adding a scan puts each of its points, rotated by the scan heading and then translated by the scan position, into the NDT; querying a scan scores exactly these transformed points. All ways to query agree: a set of points scores the sum over its points, and a scan scores the sum over its transformed points.",
  ["inputs"], "all poses, point sets and NDT contents",
  "Tests score one scan at one pose; agreement of the overloads quantifies over inputs.",
  [S+'ndt_model.cpp', I+'conversions.hpp'], [("addScan", "NDT::addScan"), ("likelihood overloads", "NDT::likelihood"), ("toEigen", I+'conversions.hpp')],
  ["NDT::likelihood"])
p("C06", "Cell score is the Gaussian of the cell, zero without enough data",
  "The score of a point in a cell is exp(-1/2 d^T Information d) with d the distance to the cell mean. It is zero when the cell has fewer than five points, has not been computed since the last point was added, or has points without any spread.",
  ["histories", "inputs"], "all cells, point counts and query points",
  "Tests check a few values of three cells.", [S+'ndt_model.cpp'],
  [("Cell::score", S+'ndt_model.cpp'), ("valid flag", "Cell::addPoint, Cell::compute")], ["Cell::score", "NDT::likelihood"])
p("C07", "The matcher's map is rebuilt from exactly the given scans",
  "Adding scans to the scan matcher discards what it held before, adds every scan of the range once and computes the map before it can be queried; the map extends over every scan position plus and minus the maximum range. Adding an empty range or resetting leaves no map, and without a map every match or score is zero and changes no output.",
  ["histories", "inputs"], "all ranges of scans, poses (also far on the negative side), and call orders",
  "The scan matcher has no test at all.", [S+'scan_matcher_ndt.cpp'],
  [("bounding box and rebuild", "ScanMatcherNDT::addScans"), ("null map guards", "ScanMatcherNDT::matchScan, scorePoints")],
  ["ScanMatcherNDT::addScans", "ScanMatcherNDT::reset"])
p("C08", "Matching returns the best offset of the search window",
  "Matching evaluates every offset of the configured linear and angular window at the configured resolution, rotating about the scan's own position, and returns the offset with the best (most negative) total score together with that score divided by the number of beams used. When nothing in the window overlaps the map the offset is left as given and the score is zero; scan and map are never changed.",
  ["inputs", "configurations"], "all maps, scans, poses, window sizes and resolutions",
  "The scan matcher has no test.", [S+'scan_matcher_ndt.cpp'],
  [("exhaustive search", "ScanMatcherNDT::matchScan")], ["ScanMatcherNDT::matchScan"])
p("C09", "Match covariance is the score-weighted covariance of the window",
  "The covariance returned by matching is the score-weighted second moment of all evaluated offsets minus the outer product of their score-weighted mean, in the order x, y, heading. Without any overlap it is diagonal with the squared window half-sizes, so it is finite and invertible.",
  ["inputs", "configurations"], "all score surfaces over the window",
  "The scan matcher has no test.", [S+'scan_matcher_ndt.cpp'],
  [("k, u, s accumulation", "ScanMatcherNDT::matchScan")], ["ScanMatcherNDT::matchScan covariance"])
p("C10", "Beam subsampling is even, bounded and in range",
  "Both scoring and matching use min(laser_max_beams, number of points) points, evenly spread over the whole scan, never an index outside it. Scores are normalized by the number of points used, scoring a scan equals scoring its points at its own pose, and an empty scan scores zero.",
  ["inputs", "configurations"], "all scan sizes and beam limits",
  "The scan matcher has no test.", [S+'scan_matcher_ndt.cpp'],
  [("scan_step", "ScanMatcherNDT::matchScan, scorePoints")], ["ScanMatcherNDT::scorePoints", "ScanMatcherNDT::scoreScan"])
p("C11", "Optimizer residual is the whitened error of the constraint",
  "The residual of a constraint is the position of the second pose in the frame of the first minus the measured one, and the heading difference minus the measured one wrapped to [-pi, pi), multiplied by a square root of the information matrix such that the squared norm is the Mahalanobis distance. It is zero when the two poses have exactly the relative pose the constraint was made from.",
  ["inputs"], "all pose pairs, measurements (also heading differences beyond +-pi) and information matrices",
  "One test optimizes one small graph with a scaled identity.", [I+'ceres_solver_pose.hpp', S+'ceres_solver.cpp', S+'constraint.cpp'],
  [("PoseGraph2dErrorTerm", I+'ceres_solver_pose.hpp'), ("square root of information", "CeresSolver::addConstraint")],
  ["PoseGraph2dErrorTerm::operator()"])
p("C12", "Optimization writes back all poses on success and none on failure",
  "Optimization starts from the current pose of every scan, holds the first scan fixed, and after a usable solution sets every scan to its own optimized pose and returns true. When there are no scans or the solution is not usable it returns false and no scan pose has changed.",
  ["inputs", "histories"], "all graphs and all repeated calls on a growing graph",
  "One test runs a solvable graph once; failure and incremental use are not covered.", [S+'ceres_solver.cpp'],
  [("duplicate node poses", "CeresSolver::optimize")], ["CeresSolver::optimize", "Scan::getPose afterwards"])
p("C13", "Every constraint enters the optimization exactly once, between its scans",
  "Across repeated optimizations of a growing graph, each constraint is added to the problem exactly once, relates the poses of its own begin and end scans in that order, and is built from its own measurement and information. Pose storage handed to the optimizer stays valid as more scans are added, and problem storage is released with the solver.",
  ["histories"], "all sequences of optimize calls on growing graphs",
  "The test calls optimize once.", [S+'ceres_solver.cpp', I+'ceres_solver.hpp'],
  [("num_constraints_ counter", "CeresSolver::optimize"), ("node-stable container", "CeresSolver::nodes_")], ["ceres::Problem::AddResidualBlock"])
p("C14", "KD-tree leaf count is the number of distinct occupied bins",
  "After any insertions since the last clear, the leaf count is the number of different (x, y, theta) bins that received a particle, where every bin has the configured size, also around zero. Clearing returns to zero.",
  ["histories", "inputs"], "all insertion sequences", "No test uses the tree.", [I+'kd_tree.hpp'],
  [("insert", "KDTree::insert"), ("split of a leaf", "KDTree::_insert")], ["KDTree::getLeafCount"])
p("C15", "Motion model follows the odometry model of Probabilistic Robotics",
  "Each pose is advanced by a sampled initial rotation, translation and final rotation, drawn independently per pose with the decomposed odometry motion as means; the position moves along heading plus initial rotation and the new heading is normalized. The deviations are those of the odometry model with each alpha in its documented role, and driving backwards does not count as a half-turn.",
  ["inputs", "configurations"], "all motions, alphas and particle sets", "No test uses the motion model.",
  [S+'motion_model.cpp'], [("MotionModel::sample", S+'motion_model.cpp')], ["MotionModel::sample"])
p("C16", "Particle set size stays within its limits, one weight per particle",
  "After construction, initialization, control update, measurement and resampling there is exactly one weight per particle. Resampling draws existing particles in proportion to their weights, keeps each one's weight with it, and ends with at least the minimum and at most the maximum number of particles, with the KLD bound deciding in between.",
  ["histories", "inputs", "configurations"], "all histories of filter operations and all limits with min <= max", "The particle filter has no test.",
  [S+'particle_filter.cpp'], [("resample loop", "ParticleFilter::resample")], ["ParticleFilter::resample", "ParticleFilter::getMsg"])
p("C17", "Filter mean and covariance always describe the current particles",
  "After every filter operation the weights sum to one (uniform when all were zero), the mean is the weighted mean with a circular mean of heading, and the covariance is the weighted covariance of position plus the weighted squared heading deviation, of the current particles and weights alone. Nothing is carried over from earlier operations.",
  ["histories", "inputs"], "all particle sets, weights and histories", "The particle filter has no test.",
  [S+'particle_filter.cpp'], [("updateStatistics at the end of every operation", "ParticleFilter::updateStatistics")],
  ["ParticleFilter::getMean", "ParticleFilter::getCovariance"])
p("C18", "Filter operations touch what they should and nothing else",
  "A control update hands the motion in the given order to the motion model for all particles and keeps the weights' proportions; a measurement sets each weight from the score of the scan's points at that particle's own pose, ignoring the scan's pose, and moves no particle. Initialization spreads all particles around the given pose with the given deviations and equal weights; the visualization message has one pose per particle with its position and heading.",
  ["inputs", "histories"], "all particle sets, scans and motions", "The particle filter has no test.",
  [S+'particle_filter.cpp'], [("init/update/measure/getMsg", S+'particle_filter.cpp')],
  ["ParticleFilter::init", "ParticleFilter::update", "ParticleFilter::measure", "ParticleFilter::getMsg"])
p("C19", "Occupancy grid covers every ray of every scan",
  "The published grid has the configured resolution, and its origin and size cover the poses and all transformed points of all current scans plus a margin of five cells on every side, recomputed for every message. No ray reads or writes outside the grid data.",
  ["histories", "inputs", "configurations"], "all scan sets, poses, resolutions and histories of messages", "The occupancy grid has no test.",
  [S+'occupancy_grid.cpp'], [("updateBounds on every message", "OccupancyGrid::getMsg, updateBounds")], ["OccupancyGrid::getMsg"])
p("C20", "Grid cells are -1 unknown, 0 free or 100 occupied",
  "A cell no ray touched is -1; a touched cell is 100 when the fraction of rays ending in it exceeds the occupancy threshold, else 0. The data has width times height entries.",
  ["inputs", "configurations"], "all hit and pass counts", "The occupancy grid has no test.",
  [S+'occupancy_grid.cpp'], [("final loop", "OccupancyGrid::getMsg")], ["OccupancyGrid::getMsg data"])
p("C21", "A ray passes from the scan's cell to the point's cell, which alone is hit",
  "For every point of every scan one ray is traced from the cell of the scan pose to the cell of the point transformed by that pose, moving one cell at a time in each axis towards the end. The last cell counts exactly one hit, every cell before it counts as passed, and tracing always ends.",
  ["inputs"], "all poses and points", "The occupancy grid has no test.",
  [S+'occupancy_grid.cpp'], [("simplified Bresenham", "OccupancyGrid::getMsg")], ["OccupancyGrid::getMsg data"])
p("C22", "A saved graph loads back with the same scans and constraints",
  "Saving writes every scan and every constraint in order, and loading restores each to the collection it came from with the same id, pose including heading, points, endpoints, transform, information matrix entries and switchable flag. Nothing is skipped, merged or reordered.",
  ["inputs"], "all graphs", "The graph has no test (it needs rosbag2).",
  [S+'graph.cpp', 'msg/'], [("save", "Graph::save"), ("loading constructor", "Graph::Graph")], ["Graph::save then Graph::Graph"])
p("C23", "Nearest search returns exactly the scans within the distance",
  "The search returns indices of scans whose distance to the query is below the given distance in metres, nearest first, taken from the first `limit` scans when a positive limit is given and from all scans otherwise. Query and candidates use the same kind of pose: barycenters when the graph is configured for them, scan poses otherwise.",
  ["inputs", "configurations"], "all graphs, distances, limits and both pose modes", "The graph has no test.",
  [S+'graph.cpp', I+'graph.hpp'], [("findNearest", "Graph::findNearest"), ("GraphAdapter", I+'graph.hpp')], ["Graph::findNearest"])
p("C24", "Graph visualization shows every scan and every constraint",
  "The graph message has one node marker per scan, at its position and with its id, followed by one edge marker per constraint with its own id joining the positions of its two scans. Loop closures are coloured differently from odometry edges.",
  ["inputs"], "all graphs", "The graph has no test.", [S+'graph.cpp'], [("getMsg", "Graph::getMsg")], ["Graph::getMsg"])
p("C25", "Data shared between threads is only touched under its lock",
  "The callback thread, the loop closure thread and the publishing thread never access the same shared data (graph, scans and constraints, tracked poses, global matcher, flags and scores) concurrently with a write unless all of them hold a common lock or the data is atomic. This covers the graph being replaced when a map is loaded.",
  ["schedules"], "all interleavings of the three threads", "No test starts the node; races depend on the schedule.",
  [S+'ndt_mapper.cpp', I+'ndt_mapper.hpp'], [("graph_mutex_, prev_pose_mutex_, global_matcher_mutex_, atomics", I+'ndt_mapper.hpp')],
  ["Mapper member accesses per thread"])
p("C26", "Published map-odom transform is consistent",
  "The transform published from map to odom is the tracked map pose of the robot composed with the inverse of the odometry pose recorded at the same update; both poses are written together and read together. It is published with the map frame as parent and the odom frame as child, whenever the map has at least one scan.",
  ["schedules", "inputs"], "all poses and interleavings", "No test starts the node.",
  [S+'ndt_mapper.cpp', I+'conversions.hpp'], [("pair written under one lock", "Mapper::laserCallback, Mapper::poseCallback"), ("TF block", "Mapper::mapPublishThread")],
  ["tf2 broadcaster"])
p("C27", "No deadlock among the mapper's locks",
  "No thread acquires a lock it already holds, locks are always acquired in one global order, and every lock is released on every way out of the code that took it, including early returns and exceptions. No thread sleeps or publishes while holding the graph or pose lock.",
  ["schedules"], "all interleavings and all exits", "No test starts the node.",
  [S+'ndt_mapper.cpp'], [("scoped lock guards", S+'ndt_mapper.cpp')], ["lock operations"])
p("C28", "Scan index equals scan id",
  "Every scan put into the graph while mapping has the index at which it is stored as its id, so that the endpoints recorded in constraints address the scans they were made from. Scans are only ever appended.",
  ["histories"], "all sequences of laser scans and initial poses", "No test starts the node.",
  [S+'ndt_mapper.cpp', S+'constraint.cpp', S+'ceres_solver.cpp'], [("Scan(graph_->scans.size()) then push_back", "Mapper::laserCallback, poseCallback")],
  ["Graph::scans", "Constraint::begin/end"])
p("C29", "Changes to the map are always published",
  "Whenever the graph is extended, corrected, optimized or loaded, the map and the graph message are published by the publishing thread afterwards, from the then current graph; a change that arrives during publication is published in the next round. Without changes nothing is republished.",
  ["schedules", "histories"], "all interleavings of changes and publication", "No test starts the node.",
  [S+'ndt_mapper.cpp'], [("map_update_available_ cleared before reading the graph", "Mapper::mapPublishThread")], ["map_pub_", "graph_pub_"])
p("C30", "No scan is processed until the robot is localized in a loaded map",
  "After a map is loaded or mapping is disabled, laser scans change no pose, graph or particle until an initial pose has been accepted. An initial pose is accepted only in the map frame, with the odometry transform available and - when mapping - close to an existing scan; it is ignored while mapping is running and localized.",
  ["histories", "fault_sequences"], "all sequences of loads, mode changes, initial poses and scans", "No test starts the node.",
  [S+'ndt_mapper.cpp'], [("prev_odom_pose_is_initialized_", "Mapper::configure, poseCallback, laserCallback")], ["laser and initialpose callbacks"])
p("C31", "The graph never changes while mapping is disabled",
  "With mapping disabled, or with the particle filter in use, no scan or constraint is added to the graph, no scan is moved and no optimization runs; laser scans only update the tracked pose. The particle filter always implies that mapping is disabled, also when enabling is requested at runtime.",
  ["histories", "configurations"], "all modes and mode changes", "No test starts the node.",
  [S+'ndt_mapper.cpp'], [("enable_mapping_ checks", "Mapper::laserCallback, poseCallback, loopClosureThread, configure")], ["Graph::scans", "Graph::constraints"])
p("C32", "A failed transform leaves no partial update",
  "When a transform needed for a laser scan or an initial pose is not available, the message is dropped: the graph, the tracked poses, the particles and the localization state are as before, and no exception escapes. The laser setup is retried with the next scan if its transform was missing.",
  ["fault_sequences"], "every transform lookup failing at every message", "No test starts the node.",
  [S+'ndt_mapper.cpp'], [("try/catch around each lookup before any change", "Mapper::laserCallback, poseCallback")], ["Mapper state after a dropped message"])
p("C33", "Exactly the usable laser measurements enter a scan",
  "The points of a scan come from all measurements of the message, from first to last, that are finite and not beyond the maximum range; the maximum range is the configured one, or that of the sensor when it is negative. This is the same for normal and inverted lasers, and a message without measurements is ignored.",
  ["inputs", "configurations"], "all messages including NaN, infinite and out of range measurements", "No test starts the node.",
  [S+'ndt_mapper.cpp'], [("range filter", "Mapper::laserCallback")], ["points given to the scan"])
p("C34", "Laser points are projected into the robot frame and deskewed",
  "Each measurement is projected at its own beam angle (negated for an inverted laser), transformed by the pose of the laser on the robot, and moved by the fraction of the robot motion during the scan, in the robot frame at scan start with the shortest rotation, that corresponds to its index. Normal and inverted lasers are treated alike except for the sign of the angle.",
  ["inputs"], "all measurements, laser mountings and motions", "No test starts the node.",
  [S+'ndt_mapper.cpp'], [("projection loops", "Mapper::laserCallback")], ["points given to the scan"])
p("C35", "Predicted pose applies the odometry increment in the map frame",
  "The initial pose of a scan is the previous map pose moved by the odometry displacement since the previous update, rotated by the difference of map and odometry heading, with the heading increased by the shortest odometry rotation. The first scan of an empty map is always taken and puts the robot at the origin of the map; from then on the tracked pose goes with the odometry of that scan. A scan is skipped only if the map has scans and the robot has both moved less than the minimum distance and turned less than the minimum rotation since the last processed scan.",
  ["inputs", "histories"], "all odometry and map poses, thresholds and directions of rotation", "No test starts the node.",
  [S+'ndt_mapper.cpp'], [("travel threshold and prediction", "Mapper::laserCallback")], ["initial scan pose"])
p("C36", "Scans are matched against the last rolling_depth scans",
  "While mapping, each new scan is matched against a local map made of exactly the last rolling_depth scans of the graph (all when there are fewer), rebuilt for every scan. The first scan is added without matching.",
  ["histories", "configurations"], "all graph sizes and rolling depths", "No test starts the node.",
  [S+'ndt_mapper.cpp'], [("rolling window", "Mapper::laserCallback")], ["ScanMatcher::addScans range"])
p("C37", "Match corrections are added to the pose before anything is derived from it",
  "The correction returned by matching is added componentwise to the scan's pose before the scan is stored, before the constraint with the previous scan (with the match covariance) is made, and before the tracked pose is updated. Constraint endpoints are the preceding scan and the new one, and the new scan is appended after its constraint's partner was read.",
  ["inputs", "histories"], "all corrections", "No test starts the node.",
  [S+'ndt_mapper.cpp'], [("correction then makeConstraint then push_back", "Mapper::laserCallback")], ["graph content after a laser scan"])
p("C38", "Loop closures are only accepted on a good match, and are switchable",
  "A loop closure constraint is added only when the match score is finite and better (lower) than the running typical response; the scan is then corrected before its constraint to the candidate is made, the constraint is marked switchable, and a change is announced. Rejected candidates change nothing.",
  ["inputs", "histories"], "all scores and candidates", "No test starts the node.",
  [S+'ndt_mapper.cpp'], [("acceptance test", "Mapper::loopClosureThread")], ["Graph::constraints"])
p("C39", "Loop closure looks at every new scan once, outside its rolling window",
  "Once there are more scans than rolling_depth, every scan beyond the initial window is examined for loop closure exactly once, against candidates within global_search_size among the scans before its rolling window, at most global_search_limit of them, nearest first. Each candidate is matched with its direct neighbours before and after, as far as they exist outside the rolling window.",
  ["histories", "configurations"], "all graph sizes and search parameters", "No test starts the node.",
  [S+'ndt_mapper.cpp'], [("global_scans_processed_ counter", "Mapper::loopClosureThread")], ["candidates matched"])
p("C40", "Optimization runs after new loop closures, at most every node limit",
  "The graph is optimized only after a loop closure was accepted and when more than optimization_node_limit scans were added since the last optimization; the count restarts at the size at that time and the result is announced.",
  ["histories", "configurations"], "all graph growth histories", "No test starts the node.",
  [S+'ndt_mapper.cpp'], [("optimization_last_", "Mapper::loopClosureThread")], ["solver calls"])
p("C41", "Every documented parameter is read and used for its purpose",
  "Each parameter listed in the README is declared under exactly that name, with the documented default where one is given, and its value reaches the component it is documented to control and no other. Scan matcher parameters are read in the namespace of the matcher they configure, so that local and global matchers are configured independently.",
  ["configurations"], "all parameters and values", "No test starts the node.",
  [S+'ndt_mapper.cpp', S+'scan_matcher_ndt.cpp', 'README.md'], [("declare_parameter", "Mapper::Mapper, ScanMatcherNDT::initialize")], ["parameter values in use"])
p("C42", "Service actions do what they are called",
  "The configure service enables or disables mapping, loads or saves the map exactly for the action bits of the service definition, a load replaces the whole graph by the content of the named file and a save writes the current graph to it. The bits are distinct and each command line script sends the action (and file name) it is named after.",
  ["inputs", "histories"], "all requests", "No test starts the node.",
  [S+'ndt_mapper.cpp', 'srv/Configure.srv', 'scripts/'], [("configure", "Mapper::configure"), ("constants", 'srv/Configure.srv')], ["configure service"])
p("C43", "Threads are ended before the data they use is destroyed",
  "Destroying the node waits for both background threads, which end soon after shutdown, before anything they use is destroyed; both are started only after all state they use has been set up. Matchers created from plugins are released before the plugin loader.",
  ["schedules"], "all shutdown times", "No test starts the node.",
  [S+'ndt_mapper.cpp', I+'ndt_mapper.hpp'], [("join in destructor", "Mapper::~Mapper"), ("threads started last", "Mapper::Mapper")], ["node construction and destruction"])
p("C44", "Loading a map resets everything derived from the old one",
  "After a map is loaded, loop closure, optimization and localization work on the new map only: no solver content, scan index, counter or matcher content from the previous map is used, and an index obtained from one graph is never used on another. When localizing, the map scans are matched against is rebuilt from all scans of the current graph when the initial pose is set.",
  ["histories", "schedules"], "all times at which a map is loaded", "No test starts the node.",
  [S+'ndt_mapper.cpp'], [("local graph reference in the loop thread", "Mapper::loopClosureThread"), ("rebuild", "Mapper::poseCallback")], ["solver and matcher content after a load"])
p("C45", "Particle filter localization: control, measure, resample, in the robot frame",
  "For each processed scan the filter is given the motion since the previous update expressed in the robot frame of that previous pose and the shortest heading change, then measured against the global map, then resampled with the configured KLD parameters, in this order. The filter mean becomes the tracked robot pose.",
  ["inputs", "histories"], "all motions", "No test starts the node.",
  [S+'ndt_mapper.cpp'], [("particle filter branch", "Mapper::laserCallback")], ["filter calls", "tracked pose"])
p("C46", "The plugin interface is complete and side-effect free where const",
  "The NDT matcher is exported under the name used as the default matcher and listed in the plugin description with the right base, overrides every operation of the interface, and its scoring and matching operations change neither its own map, nor the scans, nor other output than documented.",
  ["configurations", "inputs"], "all matcher operations", "No test loads the plugin.",
  [S+'scan_matcher_ndt.cpp', 'plugins.xml', I+'scan_matcher.hpp'], [("PLUGINLIB_EXPORT_CLASS", S+'scan_matcher_ndt.cpp')], ["plugin loading"])
p("C47", "Poses survive conversion between messages, planar and 3D form",
  "A planar pose made from a pose, stamped pose, transform or stamped transform message has its position and the yaw of its orientation. The 3D transform made from a planar pose rotates by the heading about z and moves by (x, y, 0), so that composing and inverting transforms composes and inverts the poses; heights are kept.",
  ["inputs"], "all poses and orientations", "No test calls the conversions.", [I+'conversions.hpp', I+'pose_2d.hpp'], [("toEigen", I+'conversions.hpp'), ("fromMsg", I+'conversions.hpp')], ["fromMsg", "toEigen"])
p("C48", "Published messages say what they show, where and when",
  "The map, the graph and the particles are published in the map frame, stamped with the time of publication, as is the transform. While localizing with the particle filter, the particles are published after every accepted initial pose and after every processed scan, as they are after initialization or resampling.",
  ["inputs", "histories"], "all callbacks and rounds", "No test receives a message.", [S+'ndt_mapper.cpp'], [("mapPublishThread", S+'ndt_mapper.cpp'), ("particle_pub_->publish", S+'ndt_mapper.cpp')], ["publishing"])
p("C49", "The node is reachable under its names, and late subscribers get the last map",
  "The node listens to the laser on scan and to initial poses on initialpose, publishes map and graph (and particlecloud when the particle filter is used), and offers the configure service that the scripts call. The map is retained for subscribers that join later: it is published reliably and transient local.",
  ["configurations"], "all configurations", "No test starts the node.", [S+'ndt_mapper.cpp', 'scripts/save_map.py'], [("transient_local", S+'ndt_mapper.cpp')], ["node interface"])
p("N01", "Scan matching finds the true pose",
  "For an environment with enough structure, the offset returned by matching is within one resolution step of the true offset.",
  ["inputs"], "all environments and scans", "Accuracy depends on the environment.", [S+'scan_matcher_ndt.cpp'], [("matchScan", S+'scan_matcher_ndt.cpp')], ["matchScan"])
p("N02", "Optimization never increases the total error",
  "The weighted squared error of the constraints after a successful optimization is not larger than before it.",
  ["inputs"], "all graphs", "Depends on the iterates of ceres.", [S+'ceres_solver.cpp'], [("ceres::Solve", S+'ceres_solver.cpp')], ["optimize"])
p("N03", "Resampling bounds the approximation error by kld_err",
  "With probability given by kld_z, the KL distance between the particle set and the posterior is below kld_err.",
  ["inputs"], "all posteriors", "A statistical statement.", [S+'particle_filter.cpp'], [("resample", S+'particle_filter.cpp')], ["resample"])
p("N04", "Each thread keeps up with its input",
  "Maps and transforms are published at their rate however large the map, and every laser scan is handled before the next one.",
  ["schedules"], "all loads", "Timing.", [S+'ndt_mapper.cpp'], [("threads", S+'ndt_mapper.cpp')], ["publish rates"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
for q in P: assert len(q['title']) <= 80, q['title']
open(out, 'w').write(''.join(json.dumps(q) + '\n' for q in P))
print(len(P))
