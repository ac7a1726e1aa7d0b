// C34: every setting and every pair of settings of the global planner node, given at startup or later, against a planner set up directly.
#include "vc.h"
#include "gpref.h"
#include <global_planner/global_planner_node.h>
using namespace gr;
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
typedef GlobalPlannerNodeConfig C;
static const float OCC = 3.5f, SOME = 0.4f, FREE = -2.0f;
struct Set { const char* name; uint32_t level; std::vector<double> v; std::function<void(C&, double)> f; };
static std::vector<Set> S;
static const char* TYPES[] = {"SpeedNode", "Node", "NodeWithoutSmooth"};
static void sets() {
#define D(m, lv, ...) S.push_back({#m, lv, {__VA_ARGS__}, [](C& c, double x) { c.m = x; }})
  D(min_altitude_, 0, 0, 3); D(max_altitude_, 0, 4, 20); D(max_cell_risk_, 0, 0.05, 0.6); D(smooth_factor_, 0, 0, 60); D(vert_to_hor_cost_, 0, 0, 9); D(risk_factor_, 0, 0, 900);
  D(neighbor_risk_flow_, 0, 0, 0.4); D(explore_penalty_, 0, 0, 0.01); D(up_cost_, 0, 0.5, 9); D(down_cost_, 0, 0.5, 7); D(search_time_, 0, 0, 1); D(min_overestimate_factor_, 0, 1.0, 1.5); D(max_overestimate_factor_, 0, 1.2, 4);
  D(risk_threshold_risk_based_speedup_, 0, 0.001, 1); D(default_speed_, 0, 0.4, 2.5); D(max_speed_, 0, 1.5, 7); D(max_iterations_, 0, 0, 25); D(goal_must_be_free_, 0, 0); D(use_current_yaw_, 0, 0); D(use_risk_heuristics_, 0, 0); D(use_speedup_heuristics_, 0, 0); D(use_risk_based_speedup_, 0, 0);
  D(clicked_goal_alt_, 0, 2, 6.4); D(clicked_goal_radius_, 0, 0.3, 4); D(simplify_iterations_, 0, 0, 50); D(simplify_margin_, 0, 0.5, 1.9); D(CELL_SCALE, 2, 0.5, 2); D(SPEEDNODE_RADIUS, 4, 1.5, 9);
  S.push_back({"default_node_type_", 4, {1, 2}, [](C& c, double x) { c.default_node_type_ = TYPES[(int)x]; }});
}
// the meaning of the settings: a planner set up directly
static void apply(GlobalPlanner& g, const C& c) {
  CELL_SCALE = c.CELL_SCALE; SPEEDNODE_RADIUS = c.SPEEDNODE_RADIUS;
  g.min_altitude_ = c.min_altitude_; g.max_altitude_ = c.max_altitude_; g.max_cell_risk_ = c.max_cell_risk_; g.smooth_factor_ = c.smooth_factor_; g.vert_to_hor_cost_ = c.vert_to_hor_cost_; g.risk_factor_ = c.risk_factor_; g.neighbor_risk_flow_ = c.neighbor_risk_flow_; g.explore_penalty_ = c.explore_penalty_; g.up_cost_ = c.up_cost_; g.down_cost_ = c.down_cost_; g.search_time_ = c.search_time_; g.min_overestimate_factor_ = c.min_overestimate_factor_; g.max_overestimate_factor_ = c.max_overestimate_factor_; g.max_iterations_ = c.max_iterations_; g.goal_must_be_free_ = c.goal_must_be_free_; g.use_current_yaw_ = c.use_current_yaw_; g.use_risk_heuristics_ = c.use_risk_heuristics_; g.use_speedup_heuristics_ = c.use_speedup_heuristics_; g.default_node_type_ = c.default_node_type_;
}
static const double POS[3] = {2.3, 2.6, 3.7}, VEL[3] = {1.2, 0.3, 0};
static std::vector<Vox> world() {
  std::vector<Vox> v;
  for (double z = 0.25; z < 7; z += 0.5) for (double y = 0.25; y < 12; y += 0.5) { bool gap = y > 9.9; if (!gap) for (double x = 6.25; x < 7; x += 0.5) v.push_back({x, y, z, OCC}); }
  for (double z = 0.25; z < 4; z += 0.5) for (double x = 9.25; x < 11; x += 0.5) for (double y = 4.25; y < 6; y += 0.5) v.push_back({x, y, z, SOME});
  for (double x = 0.25; x < 4; x += 0.5) for (double y = 0.25; y < 4; y += 0.5) for (double z = 2.25; z < 5; z += 0.5) v.push_back({x, y, z, FREE});
  return v;
}
static octomap::OcTree* W;
static geometry_msgs::PoseStamped pose(double x, double y, double z, double yaw) { geometry_msgs::PoseStamped p; p.pose.position.x = x; p.pose.position.y = y; p.pose.position.z = z; p.pose.orientation = tf::createQuaternionMsgFromYaw(yaw); return p; }
struct Node_ { std::unique_ptr<GlobalPlannerNode> n; Node_() { vc::set_time(50); shim::bus().clear(); CELL_SCALE = 1; SPEEDNODE_RADIUS = 5; shim::octomap_decode = [](const octomap_msgs::Octomap&) -> octomap::AbstractOcTree* { return new octomap::OcTree(*W); }; n.reset(new GlobalPlannerNode(ros::NodeHandle("~"), ros::NodeHandle(""))); } ~Node_() { delete n->global_planner_.octree_; } };
static void start(GlobalPlannerNode& n) { vc::add_ms(300); shim::deliver("octomap_full", octomap_msgs::Octomap()); shim::deliver("mavros/local_position/pose", pose(POS[0], POS[1], POS[2], 0.3)); geometry_msgs::TwistStamped t; t.twist.linear.x = VEL[0]; t.twist.linear.y = VEL[1]; t.twist.linear.z = VEL[2]; shim::deliver("mavros/local_position/velocity", t); }
static void use(GlobalPlannerNode& n) { ros::TimerEvent e; shim::deliver("move_base_simple/goal", pose(11.2, 8.3, 0, 0)); n.plannerLoopCallback(e); n.cmdLoopCallback(e); }
static std::string msgs(const nav_msgs::Path& p) { std::string s; char b[80]; for (auto& q : p.poses) { snprintf(b, sizeof b, "(%g %g %g)", q.pose.position.x, q.pose.position.y, q.pose.position.z); s += b; } return s; }
// what a node with these settings does, compared with the meaning of the settings
static void judge(GlobalPlannerNode& n, const C& cfg, const std::string& name, bool deep) {
  auto& c = vc::ctx(); const char* s = name.c_str(); ros::TimerEvent ev; vc::cur("%s", s); shim::bus().pubs.clear();
  double cs = CELL_SCALE, sr = SPEEDNODE_RADIUS; CK(cs == cfg.CELL_SCALE, "cell_size", "%s: cell size %g", s, cs); CK(sr == cfg.SPEEDNODE_RADIUS, "node_radius", "%s: node radius %g", s, sr);
  GlobalPlanner& g = n.global_planner_; GlobalPlanner L; RefMap m; m.scale = cfg.CELL_SCALE; m.flow = cfg.neighbor_risk_flow_; m.penalty = cfg.explore_penalty_; m.robot = 0.5;
  apply(L, cfg); L.setFrame("local_origin"); L.setRobotRadius(0.5); L.updateFullOctomap(new octomap::OcTree(*W)); m.set(0.5, world());
  L.setPose(pose(POS[0], POS[1], POS[2], 0.3)); L.curr_vel_.x = VEL[0]; L.curr_vel_.y = VEL[1]; L.curr_vel_.z = VEL[2];
  // risk and legality
  auto at = [&](double x, double y, double z) { return Cell(x, y, z); }; uint64_t hh = 5;
  std::vector<std::array<double, 3>> Q{{2.3, 2.6, 3.7}, {5.6, 2.2, 3.2}, {6.4, 8.1, 3.3}, {6.3, 11.2, 2.2}, {9.6, 5.1, 3.4}, {3.1, 3.2, 1.2}, {2.2, 3.3, 8.8}, {8.1, 4.2, 5.5}};
  for (auto& q : Q) { Cell k = at(q[0], q[1], q[2]); double r = g.getRisk(k), w = m.risk(ix(k)); hh = vc::mix(hh, vc::hashf(r)); CK(vc::near(r, w, 1e-9), "risk", "%s: risk of %s is %g, expected %g", s, k.asString().c_str(), r, w);
    for (int d = 0; d < 4; d++) { I3 a = ix(k), b = a; b[d % 3] += d == 3 ? -1 : 1; double sr = m.step(a, b), z = cfg.CELL_SCALE * (b[2] + .5); bool leg = z < cfg.max_altitude_ && z > cfg.min_altitude_ && sr < cfg.max_cell_risk_; if (std::fabs(sr - cfg.max_cell_risk_) < 1e-9) continue; CK(g.isLegal(Node(mk(b), mk(a))) == leg, "legal", "%s: step from (%d %d %d) to (%d %d %d) legal %d", s, a[0], a[1], a[2], b[0], b[1], b[2], !leg);
      I3 p{a[0] - 1, a[1], a[2]}; double dz = cfg.CELL_SCALE * (b[2] - a[2]), dist = cfg.CELL_SCALE * std::hypot(b[0] - a[0], b[1] - a[1]) + (dz > 0 ? cfg.up_cost_ * dz : -cfg.down_cost_ * dz), tu = d == 0 ? 0 : d == 1 ? 2 : d == 3 ? 4 : 0.5; bool early = cfg.CELL_SCALE * std::sqrt(std::pow(a[0] - std::floor(POS[0] / cs), 2) + std::pow(a[1] - std::floor(POS[1] / cs), 2) + std::pow(a[2] - std::floor(POS[2] / cs), 2)) < 3;
      double want = dist + cfg.risk_factor_ * sr + cfg.smooth_factor_ * tu * tu * (early ? 2 : 1), got = g.getEdgeCost(Node(mk(a), mk(p)), Node(mk(b), mk(a))); CK(vc::near(got, want, 1e-9), "cost", "%s: step from (%d %d %d) to (%d %d %d) costs %g, expected %g", s, a[0], a[1], a[2], b[0], b[1], b[2], got, want); } }
  // a clicked goal
  shim::deliver("move_base_simple/goal", pose(11.2, 8.3, 0, 0)); I3 G; { double q[3] = {11.2, 8.3, cfg.clicked_goal_alt_}; for (int i = 0; i < 3; i++) G[i] = (int)std::floor(q[i] / cfg.CELL_SCALE); }
  CK(ix(g.goal_pos_) == G && g.goal_pos_.radius_ == cfg.clicked_goal_radius_, "clicked_goal", "%s: goal %s radius %g", s, g.goal_pos_.asString().c_str(), g.goal_pos_.radius_);
  // the heuristic to it
  L.setGoal(GoalCell(mk(G), cfg.clicked_goal_radius_)); g.overestimate_factor_ = L.overestimate_factor_ = 1.3;
  { Cell u = at(2.3, 2.6, 3.7), p = at(0.2, 2.6, 3.7), t = mk(G); Node U(u, p); double h1 = g.getHeuristic(U, t), base = 1.3 * u.diagDistance2D(t) + (t.zIndex() > u.zIndex() ? cfg.up_cost_ : cfg.down_cost_) * std::abs(t.zIndex() - u.zIndex()) + L.smoothnessHeuristic(U, t) + (cfg.use_risk_heuristics_ ? L.riskHeuristic(u, t) : 0);
    auto sc = g.visitor_.seen_count_[u]; CK(vc::near(h1, base + (cfg.use_speedup_heuristics_ ? sc : 0), 1e-9), "heuristic", "%s: heuristic %g, expected %g with %g visits", s, h1, base, (double)sc);
    Node V(at(2.3, 2.6, 4.7), at(2.3, 2.6, 3.7)); if (V.cell_ != V.parent_) CK(vc::near(g.smoothnessHeuristic(V, t), cfg.smooth_factor_ * cfg.vert_to_hor_cost_, 1e-9), "turn_heuristic", "%s", s); }
  // the path to it, the published path and the speed
  bool found = L.getGlobalPath(); double ov = L.overestimate_factor_; shim::bus().pubs.clear(); n.plannerLoopCallback(ev); c.transitions++; nav_msgs::Path pub; bool has = shim::last_published("global_temp_path", pub) || shim::last_published("/global_temp_path", pub);
  for (auto& p : shim::bus().pubs) if (p.topic.size() >= 16 && p.topic.substr(p.topic.size() - 16) == "global_temp_path") { pub = *(const nav_msgs::Path*)p.msg.get(); has = true; }
  CK(has == found, "found", "%s: path found %d, expected %d", s, has, found); hh = vc::mix(hh, found);
  if (found && has) { auto w = L.getPathMsg(simplifyPath(&L, L.curr_path_, cfg.simplify_margin_, cfg.simplify_iterations_)); std::string a = msgs(pub), b = msgs(w); hh = vc::mix(hh, std::hash<std::string>()(a)); CK(a == b, "path", "%s: path %s, expected %s", s, a.c_str(), b.c_str()); CK(ix(g.goal_pos_) == ((ov > 1.05 && L.curr_path_.size() > 10) ? ix(L.curr_path_[L.curr_path_.size() / 2]) : G), "goal_after_plan", "%s: goal %s", s, g.goal_pos_.asString().c_str()); }
  for (int k = 0; k < 2; k++) {
    const double P[2][3] = {{2.3, 2.6, 3.7}, {8.6, 5.2, 3.2}}; n.current_goal_ = pose(P[k][0] + 40, P[k][1], P[k][2], 0); n.path_.clear(); shim::deliver("mavros/local_position/pose", pose(P[k][0], P[k][1], P[k][2], 0.3)); shim::bus().pubs.clear(); n.cmdLoopCallback(ev); double x = NAN;
    for (auto& p : shim::bus().pubs) if (p.topic.find("current_setpoint") != std::string::npos) x = ((const geometry_msgs::PoseStamped*)p.msg.get())->pose.position.x - P[k][0];
    double r = std::sqrt(m.risk(ix(at(P[k][0], P[k][1], P[k][2])))), w = cfg.default_speed_; if (cfg.use_risk_based_speedup_ && r < cfg.risk_threshold_risk_based_speedup_) w += (cfg.max_speed_ - cfg.default_speed_) * (1 - r);
    hh = vc::mix(hh, vc::hashf(x)); CK(vc::near(x, w, 1e-9), "speed", "%s: setpoint %g m ahead at risk %g, expected %g", s, x, r, w);
  }
  vc::outcome(hh); c.states++; delete L.octree_;
}
static void pairs() {
  auto& c = vc::ctx(); uint64_t it = 0; struct O { int s; double v; }; std::vector<O> all; for (size_t i = 0; i < S.size(); i++) for (double v : S[i].v) all.push_back({(int)i, v});
  for (size_t i = 0; i < all.size(); i++) for (size_t j = i; j < all.size(); j++) for (int mode = 0; mode < 4; mode++) {
    if (!vc::mine(it++) || (all[i].s == all[j].s && i != j)) continue; if (!c.thorough && i != j && (i + j + mode) % 4 != 0) continue;
    const Set &a = S[all[i].s], &b = S[all[j].s]; C cfg = C::__getDefault__(); Node_ x; GlobalPlannerNode& n = *x.n; char nm[300]; const char* MD[] = {"at the start, together", "one after the other before the first map", "one after the other on a running planner", "other way round on a running planner with use in between"};
    snprintf(nm, sizeof nm, "%s=%g %s=%g %s", a.name, all[i].v, b.name, all[j].v, MD[mode]); std::string name = nm; vc::cur("%s", nm); C d = cfg; cfg.neighbor_risk_flow_ = 0.1; d = cfg; n.server_.shim_reconfigure(cfg, ~0u);
    a.f(cfg, all[i].v); b.f(cfg, all[j].v);
    geometry_msgs::Point g0, g1; auto goal = [&] { return n.waypoints_.empty() ? n.global_planner_.goal_pos_.toPoint() : n.waypoints_.back().toPoint(); };
    auto keep = [&](const char* w) { g1 = goal(); double tol = 0.5 * std::max(1.0, CELL_SCALE) + 1e-9; CK(std::fabs(g1.x - g0.x) <= tol && std::fabs(g1.y - g0.y) <= tol && std::fabs(g1.z - g0.z) <= tol, "goal_moved", "%s: %s the goal moves from (%g %g %g) to (%g %g %g)", nm, w, g0.x, g0.y, g0.z, g1.x, g1.y, g1.z); };
    if (mode == 0) { g0 = goal(); n.server_.shim_reconfigure(cfg, ~0u); keep("at the start"); start(n); }
    else if (mode == 1) { C e = d; a.f(e, all[i].v); g0 = goal(); n.server_.shim_reconfigure(e, a.level); keep("with the first"); g0 = goal(); n.server_.shim_reconfigure(cfg, b.level); keep("with the second"); start(n); }
    else { start(n); use(n); C e = d; (mode == 2 ? a : b).f(e, all[mode == 2 ? i : j].v); g0 = goal(); auto w0 = n.current_goal_; auto p0 = n.path_; n.server_.shim_reconfigure(e, (mode == 2 ? a : b).level); keep("with the first");
      auto w1 = n.current_goal_; CK(w0.pose.position.x == w1.pose.position.x && w0.pose.position.y == w1.pose.position.y && w0.pose.position.z == w1.pose.position.z && p0.size() == n.path_.size(), "path_moved", "%s: the path changes without a plan", nm);
      if (mode == 3) { use(n); } g0 = goal(); n.server_.shim_reconfigure(cfg, (mode == 2 ? b : a).level); keep("with the second"); }
    n.waypoints_.clear(); judge(n, cfg, name, true); c.traces++;
  }
}
// parameters read once at the start
static void startup() {
  auto& c = vc::ctx(); uint64_t it = 0; ros::TimerEvent ev;
  for (int sp = 0; sp < 3; sp++) for (double rad : {-1.0, 0.3, 0.9, 1.6}) for (int fr = 0; fr < 2; fr++) for (int cam = 0; cam < 3; cam++) for (int nt = 0; nt < 4; nt++) {
    if (!vc::mine(it++)) continue; vc::set_time(50); auto& B = shim::bus(); B.clear(); CELL_SCALE = 1; SPEEDNODE_RADIUS = 5; char nm[200]; snprintf(nm, sizeof nm, "start position %d, robot radius %g, frame %d, camera frame %d, %d cameras", sp, rad, fr, cam, nt); vc::cur("%s", nm);
    double st[3] = {0.5, 0.5, 3.5}; auto P = [&](const char* k, double v) { B.params_d[k] = v; B.params_d[std::string("/") + k] = v; }; auto T = [&](const char* k, const std::string& v) { B.params_s[k] = v; B.params_s[std::string("/") + k] = v; };
    if (sp) { st[0] = sp == 1 ? -3.4 : 2.1; st[1] = 4.7; st[2] = sp == 1 ? 2.2 : 5.6; P("start_pos_x", st[0]); P("start_pos_y", st[1]); P("start_pos_z", st[2]); }
    if (rad > 0) P("robot_radius", rad); std::string frame = fr ? "world" : "local_origin"; if (fr) T("frame_id", frame); std::string cf = cam ? (cam == 1 ? "camera_link" : "my_camera") : "camera_link"; if (cam) T("camera_frame_id", cf);
    std::vector<std::string> topics; for (int i = 0; i < nt; i++) topics.push_back("cam" + std::to_string(i)); if (nt) { B.params_v["pointcloud_topics"] = topics; B.params_v["/pointcloud_topics"] = topics; }
    shim::octomap_decode = [](const octomap_msgs::Octomap&) -> octomap::AbstractOcTree* { return new octomap::OcTree(*W); };
    { GlobalPlannerNode n{ros::NodeHandle("~"), ros::NodeHandle("")};
      I3 k{(int)std::floor(st[0]), (int)std::floor(st[1]), (int)std::floor(st[2])}; CK(ix(n.global_planner_.goal_pos_) == k, "start_goal", "%s: first goal %s", nm, n.global_planner_.goal_pos_.asString().c_str());
      start(n); B.pubs.clear(); n.cmdLoopCallback(ev); geometry_msgs::PoseStamped sp_; bool h = false; for (auto& p : B.pubs) if (p.topic.find("current_setpoint") != std::string::npos) { sp_ = *(const geometry_msgs::PoseStamped*)p.msg.get(); h = true; }
      double dx = st[0] - POS[0], dy = st[1] - POS[1], dz = st[2] - POS[2]; auto& q = sp_.pose.position; double cx = (q.y - POS[1]) * dz - (q.z - POS[2]) * dy, cy = (q.z - POS[2]) * dx - (q.x - POS[0]) * dz, cz = (q.x - POS[0]) * dy - (q.y - POS[1]) * dx; CK(h && std::fabs(cx) + std::fabs(cy) + std::fabs(cz) < 1e-6 && sp_.header.frame_id == frame, "start_setpoint", "%s: setpoint (%g %g %g) in %s", nm, q.x, q.y, q.z, sp_.header.frame_id.c_str());
      RefMap m; m.robot = rad > 0 ? rad : 0.5; m.flow = C::__getDefault__().neighbor_risk_flow_; m.penalty = C::__getDefault__().explore_penalty_; m.set(0.5, world()); for (auto& e : std::vector<I3>{{2, 2, 3}, {5, 2, 3}, {4, 2, 3}, {6, 10, 3}}) CK(vc::near(n.global_planner_.getRisk(mk(e)), m.risk(e), 1e-9), "robot_radius", "%s: risk of (%d %d %d) is %g, expected %g", nm, e[0], e[1], e[2], n.global_planner_.getRisk(mk(e)), m.risk(e));
      // cameras: a cloud of each topic becomes seen obstacle cells in the world frame
      for (int i = 0; i < nt; i++) {
        shim::tf_lookup = [&](const std::string& to, const std::string& from, const ros::Time&, tf::StampedTransform& t) { if (to != frame || from != cf) return false; t.setOrigin(tf::Vector3(3 + i, -2, 1)); t.setRotation(tf::createQuaternionFromYaw(M_PI / 2)); return true; };
        pcl::PointCloud<pcl::PointXYZ> cl; const float PT[6][3] = {{1.2f, 0.3f, 0.4f}, {NAN, NAN, NAN}, {-4.6f, 2.2f, 3.1f}, {2.2f, NAN, 0.1f}, {INFINITY, 0, 0}, {0.4f, -0.4f, 7.3f}}; for (auto& p : PT) cl.push_back(pcl::PointXYZ(p[0], p[1], p[2])); cl.is_dense = false; cl.header.frame_id = cf; sensor_msgs::PointCloud2 msg; pcl::toROSMsg(cl, msg);
        n.global_planner_.occupied_.clear(); B.pubs.clear(); shim::deliver(topics[i], msg); std::set<I3> want, got; for (auto& k : n.global_planner_.occupied_) got.insert(ix(k)); for (auto& p : PT) if (std::isfinite(p[0]) && std::isfinite(p[1])) want.insert({(int)std::floor(-p[1] + 3 + i), (int)std::floor(p[0] - 2), (int)std::floor(p[2] + 1)});
        CK(got == want, "seen_obstacles", "%s: %zu cells with obstacles after the cloud of camera %d, expected %zu", nm, got.size(), i, want.size()); int fw = 0; for (auto& p : B.pubs) if (p.topic.find("cloud_in") != std::string::npos) fw++; CK(fw == 1, "cloud_forwarded", "%s: the cloud is passed on %d times", nm, fw); c.transitions++;
        shim::tf_lookup = nullptr; n.global_planner_.occupied_.clear(); B.pubs.clear(); shim::deliver(topics[i], msg); CK(n.global_planner_.occupied_.empty(), "untransformed", "%s: a cloud without transform is used", nm);
      }
      delete n.global_planner_.octree_; c.states++; }
  }
}
int main(int argc, char** argv) {
  vc::init(argc, argv); if (!freopen("/dev/null", "w", stdout)) return 9;
  W = tree(0.5, world()); sets(); startup(); pairs();
  vc::sample("settings %zu", S.size());
  return vc::done();
}
