// C32: the global planner node (real callbacks and planner) over every short history of goals, positions, maps and loop ticks, against a reference.
#include "vc.h"
#include "gpref.h"
#include <global_planner/global_planner_node.h>
using namespace gr;
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
static const float OCC = 3.5f;
struct P3 { double x, y, z, yaw; };
static bool eq(const P3& a, const P3& b) { return vc::near(a.x, b.x, 1e-9) && vc::near(a.y, b.y, 1e-9) && vc::near(a.z, b.z, 1e-9) && std::fabs(std::remainder(a.yaw - b.yaw, 2 * M_PI)) < 1e-6; }
static P3 p3(const geometry_msgs::PoseStamped& m) { return {m.pose.position.x, m.pose.position.y, m.pose.position.z, tf::getYaw(m.pose.orientation)}; }
struct Cfg { const char* name; const char* type; double minov; bool speedup; int simp; double margin; double rad; double alt; double scale; };
static const Cfg CFG[] = {{"default", "SpeedNode", 1.03, true, 1, 1.01, 1.0, 3.5, 1}, {"half-way goals", "NodeWithoutSmooth", 1.5, false, 100, 1.01, 1.0, 3.5, 1}, {"nodes", "Node", 1.03, false, 100, 1.5, 2.0, 2.5, 1}, {"fast", "NodeWithoutSmooth", 1.2, true, 2, 1.01, 0.5, 3.5, 1}};
struct GoalM { I3 c; double r; bool tmp; };
static I3 cellof(double x, double y, double z) { return {(int)std::floor(x / CELL_SCALE), (int)std::floor(y / CELL_SCALE), (int)std::floor(z / CELL_SCALE)}; }
static double ctr(int i) { return CELL_SCALE * (i + 0.5); }
static std::vector<Vox> mapOf(int k) {
  std::vector<Vox> v; const int W = k == 4 ? 47 : 13;
  for (int z = 1; z <= 5; z++) for (int x = -1; x <= W; x++) for (int y = -2; y <= 2; y++) if (x < 0 || x == W || y == -2 || y == 2) v.push_back({x + .5, y + .5, z + .5, OCC});
  if (k == 1) for (int z = 1; z <= 5; z++) for (int y = -1; y <= 1; y++) v.push_back({1.5, y + .5, z + .5, OCC});   // a wall across
  if (k == 2) v.push_back({0.5, 0.5, 3.5, OCC});                                                                     // the vehicle's first cell
  if (k == 3) for (int z = 1; z <= 5; z++) { v.push_back({1.5, 0.5, z + .5, OCC}); v.push_back({6.5, 0.5, z + .5, OCC}); v.push_back({6.5, 1.5, z + .5, OCC}); }  // a way around
  return v;
}
static octomap::OcTree* TREE[5];
enum { PLAN, CMD, FOLLOW, FLY, GA, GB, GC, GHERE, FD, FZ, FBAD, M0, M1, M2, M3, MSOON, VEL, P1, P2, CLICK, NEV, M4 = NEV, GL };
static const char* EN[] = {"plan", "command", "move to setpoint", "fly a while", "goal near", "goal in wall", "goal far", "goal here", "fcu goal", "fcu goal lower", "fcu goal invalid", "map free", "map wall across", "map on vehicle", "map with detour", "map too soon", "moving", "position (4.2 0.3 3.4)", "position (10.6 -0.4 2.6)", "clicked", "map long corridor", "goal at its end"};
struct Out { std::string topic; decltype(shim::Pub::msg) msg; };
struct Sys {
  std::unique_ptr<GlobalPlannerNode> n; std::vector<Out> out;
  const Cfg& f; GoalM goal; std::vector<GoalM> queue; bool blocked = false, have = false; P3 cur, pos{0, 0, 0, 0}; std::vector<P3> rest; double speed, t = 100, lastmap = 0; int np = 0, na = 0; bool known = true;
  P3 sp{0.5, 0.5, 3.5, 0}; bool have_sp = false; std::string H; uint64_t hh = 7;
  Sys(const Cfg& cf) : f(cf) {
    shim::bus().clear(); vc::set_time(t); CELL_SCALE = 1;
    shim::octomap_decode = [](const octomap_msgs::Octomap& m) -> octomap::AbstractOcTree* { return new octomap::OcTree(*TREE[m.data.at(0)]); };
    n.reset(new GlobalPlannerNode(ros::NodeHandle("~"), ros::NodeHandle("")));
    GlobalPlannerNodeConfig c = GlobalPlannerNodeConfig::__getDefault__();
    c.max_altitude_ = 5; c.neighbor_risk_flow_ = 0; c.default_node_type_ = f.type; c.min_overestimate_factor_ = f.minov; c.use_risk_based_speedup_ = f.speedup; c.simplify_iterations_ = f.simp; c.simplify_margin_ = f.margin; c.clicked_goal_radius_ = f.rad; c.clicked_goal_alt_ = f.alt; c.max_iterations_ = 3000;
    n->server_.shim_reconfigure(c, ~0u);
    goal = {cellof(0.5, 0.5, 3.5), 1.0, false}; cur = {0.5, 0.5, 3.5, 0}; speed = 1.0;
    shim::bus().on_publish = [this](const shim::Pub& p) { out.push_back({p.topic, p.msg}); };
  }
  ~Sys() { shim::bus().on_publish = nullptr; delete n->global_planner_.octree_; }
  bool ends(const std::string& s, const char* e) { std::string x(e); return s.size() >= x.size() && s.compare(s.size() - x.size(), x.size(), x) == 0; }
  template <class M> std::vector<const M*> on(const char* topic) { std::vector<const M*> r; for (auto& o : out) if (ends(o.topic, topic)) r.push_back((const M*)o.msg.get()); return r; }
  std::vector<P3> poses(const std::vector<Cell>& p) { std::vector<P3> r; double y = pos.yaw; for (size_t i = 0; i < p.size(); i++) { I3 k = ix(p[i]); if (i + 1 < p.size()) { I3 q = ix(p[i + 1]); if (q[0] != k[0] || q[1] != k[1]) y = std::atan2((double)q[1] - k[1], (double)q[0] - k[0]); } r.push_back({ctr(k[0]), ctr(k[1]), ctr(k[2]), y}); } return r; }
  void published_goals(const std::vector<GoalM>& want) {
    auto& c = vc::ctx(); auto tg = on<geometry_msgs::PointStamped>("global_temp_goal"); auto gg = on<geometry_msgs::PointStamped>("global_goal"); size_t k = 0, j = 0; bool ok = tg.size() == want.size();
    for (auto& w : want) { auto at = [&](const geometry_msgs::PointStamped* m) { return vc::near(m->point.x, ctr(w.c[0]), 1e-9) && vc::near(m->point.y, ctr(w.c[1]), 1e-9) && vc::near(m->point.z, ctr(w.c[2]), 1e-9) && m->header.frame_id == "local_origin"; }; if (k < tg.size()) ok &= at(tg[k++]); if (!w.tmp) { if (j < gg.size()) ok &= at(gg[j++]); else ok = false; } }
    CK(ok && j == gg.size(), "goals_published", "%s: %zu goals and %zu temporary goals published, expected %zu", H.c_str(), gg.size(), tg.size(), want.size());
  }
  void set(const GoalM& g, std::vector<GoalM>& pub) { goal = g; blocked = false; pub.push_back(g); }
  void take(const std::vector<P3>& p) { rest.clear(); if (p.size() == 1) cur = p[0]; if (p.size() < 2) return; cur = p[1]; rest.assign(p.begin() + 2, p.end()); }
  void path_published(const std::vector<P3>& want, const char* key) {
    auto& c = vc::ctx(); auto tp = on<nav_msgs::Path>("global_temp_path"); auto sm = on<nav_msgs::Path>("smooth_path"); bool ok = !tp.empty();
    if (ok) { auto& q = tp.back()->poses; ok = q.size() == want.size(); for (size_t i = 0; ok && i < q.size(); i++) ok = eq(p3(q[i]), want[i]); }
    CK(ok, key, "%s: the published path of %zu points is not the one expected (%zu points)", H.c_str(), tp.empty() ? 0 : tp.back()->poses.size(), want.size());
    ok = !sm.empty(); if (ok && want.size() > 2) { auto& q = sm.back()->poses; ok = !q.empty() && std::hypot(q.back().pose.position.x - want.back().x, q.back().pose.position.y - want.back().y) < 1e-6 && std::fabs(q.back().pose.position.z - want.back().z) < 1e-6; }
    CK(ok, "smooth_path", "%s: smooth path of the followed path", H.c_str());
  }
  void plan() {
    auto& c = vc::ctx(); out.clear(); GlobalPlanner g2 = n->global_planner_; ros::TimerEvent ev; n->plannerLoopCallback(ev); c.transitions++;
    if (!have) { CK(out.empty(), "planned_without_position", "%s: planned before the position is known", H.c_str()); return; }
    std::vector<GoalM> pub; bool hold = false; auto man = [&](const I3& k) { return std::fabs(ctr(k[0]) - pos.x) + std::fabs(ctr(k[1]) - pos.y) + std::fabs(ctr(k[2]) - pos.z); };
    bool in = man(goal.c) < goal.r;
    if (in || blocked) {
      if (!queue.empty()) { GoalM q = queue.front(); queue.erase(queue.begin()); set(q, pub); g2.setGoal(GoalCell(mk(q.c), q.r, q.tmp)); }
      else if (blocked) { I3 k = cellof(pos.x, pos.y, pos.z); goal = {k, 1.0, false}; blocked = false; g2.setGoal(GoalCell(mk(k))); g2.setPath({mk(k)}); hold = true; take({P3{ctr(k[0]), ctr(k[1]), ctr(k[2]), pos.yaw}}); }
    }
    bool found = g2.getGlobalPath(); std::vector<Cell> path = g2.curr_path_; blocked = g2.goal_is_blocked_;
    if (found && g2.overestimate_factor_ > 1.05 && path.size() > 10) { c.info["half-way goals"]++; if (goal.tmp) c.info["half-way goals on the way to one"]++; queue.insert(queue.begin(), goal); set({ix(path[path.size() / 2]), (double)(path.size() / 4), true}, pub); }
    published_goals(pub); vc::outcome(hh = vc::mix(hh, found * 2 + hold + path.size() * 4));
    if (found) { c.info["paths"]++; auto s = simplifyPath(&g2, path, f.margin, f.simp); auto w = poses(s); path_published(w, "path_published"); take(w); }
    else if (hold) { c.info["holds"]++; path_published({cur}, "hold_published"); }
    else CK(on<nav_msgs::Path>("global_temp_path").empty(), "path_without_plan", "%s: a path is published without a new one", H.c_str());
    same("after planning");
  }
  void same(const char* when) {
    auto& c = vc::ctx(); auto& g = n->global_planner_.goal_pos_;
    CK(ix(g) == goal.c && g.radius_ == goal.r && n->waypoints_.size() == queue.size(), "goal", "%s: %s the goal is %s with %zu behind, expected (%d %d %d) with %zu", H.c_str(), when, g.asString().c_str(), n->waypoints_.size(), goal.c[0], goal.c[1], goal.c[2], queue.size());
    bool ok = n->path_.size() == rest.size() && eq(p3(n->current_goal_), cur); for (size_t i = 0; ok && i < rest.size(); i++) ok = eq(p3(n->path_[i]), rest[i]);
    CK(ok, "waypoints", "%s: %s waypoint (%g %g %g) and %zu behind, expected (%g %g %g) and %zu", H.c_str(), when, n->current_goal_.pose.position.x, n->current_goal_.pose.position.y, n->current_goal_.pose.position.z, n->path_.size(), cur.x, cur.y, cur.z, rest.size());
  }
  void cmd() {
    auto& c = vc::ctx(); out.clear(); GlobalPlanner g2 = n->global_planner_; ros::TimerEvent ev; n->cmdLoopCallback(ev); c.transitions++;
    auto a = on<geometry_msgs::PoseStamped>("current_setpoint"), b = on<geometry_msgs::PoseStamped>("setpoint_position/local"); auto t = on<mavros_msgs::Trajectory>("trajectory/generated");
    if (!have) { CK(a.empty() && b.empty() && t.empty(), "setpoint_without_position", "%s: a setpoint is published before the position is known", H.c_str()); return; }
    speed = 1.0; if (f.speedup) { double r = std::sqrt(g2.getRisk(mk(cellof(pos.x, pos.y, pos.z)))); if (r < 0.5) speed = 1.0 + 2.0 * (1 - r); }
    double dx = cur.x - pos.x, dy = cur.y - pos.y, dz = cur.z - pos.z, d = std::sqrt(dx * dx + dy * dy + dz * dz), l = d < 1 ? d : std::min(d, speed), k = d > 0 ? l / d : 0;
    P3 w{pos.x + k * dx, pos.y + k * dy, pos.z + k * dz, cur.yaw}; bool ok = a.size() == 1 && b.size() == 1 && t.size() == 1 && eq(p3(*a[0]), w) && eq(p3(*b[0]), w);
    if (ok) { auto& m = *t[0]; ok = m.point_valid[0] && !m.point_valid[1] && !m.point_valid[2] && !m.point_valid[3] && !m.point_valid[4] && vc::near(m.point_1.position.x, w.x, 1e-9) && vc::near(m.point_1.position.y, w.y, 1e-9) && vc::near(m.point_1.position.z, w.z, 1e-9) && std::isnan(m.point_1.velocity.x) && std::fabs(std::remainder(m.point_1.yaw - w.yaw, 2 * M_PI)) < 1e-5; }
    CK(ok, "setpoint", "%s: setpoint (%g %g %g), expected (%g %g %g) towards (%g %g %g)", H.c_str(), a.empty() ? NAN : a[0]->pose.position.x, a.empty() ? NAN : a[0]->pose.position.y, a.empty() ? NAN : a[0]->pose.position.z, w.x, w.y, w.z, cur.x, cur.y, cur.z);
    sp = w; have_sp = true; vc::outcome(hh = vc::mix(hh, vc::hashf(w.x * 7 + w.y * 3 + w.z)));
  }
  void pose(const P3& p) {
    auto& c = vc::ctx(); out.clear(); geometry_msgs::PoseStamped m; m.header.frame_id = "map"; m.pose.position.x = p.x; m.pose.position.y = p.y; m.pose.position.z = p.z; m.pose.orientation = tf::createQuaternionMsgFromYaw(p.yaw); c.transitions++;
    shim::deliver("mavros/local_position/pose", m); pos = p; have = true; bool adv = false, any = false;
    double d = std::sqrt(std::pow(cur.x - p.x, 2) + std::pow(cur.y - p.y, 2) + std::pow(cur.z - p.z, 2)); any = std::fabs(std::fabs(std::remainder(cur.yaw - p.yaw, 2 * M_PI)) - M_PI) < 1e-6 || std::fabs(d - speed) < 1e-9;
    if (!rest.empty() && (d < speed || any)) { adv = !any || n->path_.size() < rest.size(); if (adv) { cur = rest[0]; rest.erase(rest.begin()); c.info["waypoints passed"]++; } }
    auto ap = on<nav_msgs::Path>("actual_path"); bool rec = np++ % 10 == 0; if (rec) na++;
    CK(ap.size() == (size_t)rec && (!rec || ((int)ap[0]->poses.size() == na && eq(p3(ap[0]->poses.back()), p) && ap[0]->poses.back().header.frame_id == "local_origin" && ap[0]->header.frame_id == "local_origin")), "actual_path", "%s: travelled path", H.c_str());
    same("after the position");
  }
  void map(int k, bool soon) {
    if (!soon) t += 0.25; else t += 0.07; vc::set_time(t); octomap_msgs::Octomap m; m.data.push_back(k); double before = n->global_planner_.octree_ ? 1 : 0; auto old = n->global_planner_.octree_; auto& c = vc::ctx(); out.clear();
    shim::deliver("octomap_full", m); bool due = t - lastmap >= 0.2; if (due) lastmap = t; CK((n->global_planner_.octree_ != old || before == 0) || !due, "map_ignored", "%s", H.c_str()); CK(n->global_planner_.octree_ == old || due, "map_taken_early", "%s", H.c_str()); c.transitions++; same("after the map");
  }
  void given(const GoalM& g) { std::vector<GoalM> p; queue.clear(); set(g, p); published_goals(p); same("after the goal"); }
  void click(double x, double y) { out.clear(); geometry_msgs::PoseStamped m; m.pose.position.x = x; m.pose.position.y = y; m.pose.position.z = 77; shim::deliver("move_base_simple/goal", m); given({cellof(x, y, f.alt), f.rad, false}); }
  void fcu(double x, double y, double z, bool valid) {
    out.clear(); mavros_msgs::Trajectory m; m.point_valid[1] = valid; m.point_2.position.x = x; m.point_2.position.y = y; m.point_2.position.z = z; shim::deliver("mavros/trajectory/desired", m);
    I3 k = cellof(x, y, z); const GoalM& real = queue.empty() ? goal : queue.back(); if (valid && k != real.c) given({k, 1.0, false}); else { published_goals({}); same("after the goal"); }
  }
  void event(int e) {
    H += std::string("[") + EN[e] + "] "; vc::cur("%s", H.c_str());
    switch (e) {
      case PLAN: plan(); break; case CMD: cmd(); break; case FOLLOW: pose(have_sp ? sp : pos); break;
      case FLY: plan(); for (int i = 0; i < 4; i++) { cmd(); pose(have_sp ? sp : pos); } break;
      case GA: click(2.5, 0.5); break; case GB: click(2.5, 2.5); break; case GC: click(11.2, 0.7); break; case GHERE: click(pos.x, pos.y); break;
      case FD: fcu(3.3, -0.4, 3.6, true); break; case FZ: fcu(3.3, -0.4, 2.6, true); break; case FBAD: fcu(5.5, 0.5, 3.5, false); break;
      case M0: case M1: case M2: case M3: map(e - M0, false); break; case MSOON: map(0, true); break; case M4: map(4, false); break; case GL: click(45.2, 0.7); break;
      case VEL: { geometry_msgs::TwistStamped v; v.twist.linear.x = n->global_planner_.curr_vel_.x ? 0 : 2.2; shim::deliver("mavros/local_position/velocity", v); break; }
      case P1: pose({4.2, 0.3, 3.4, 0.2}); break; case P2: pose({10.6, -0.4, 2.6, -2}); break;
      case CLICK: { out.clear(); geometry_msgs::PointStamped q; q.point.x = 1.5; q.point.y = 0.5; q.point.z = 3.5; shim::deliver("clicked_point", q); auto& c = vc::ctx(); CK(out.empty(), "click_acts", "%s", H.c_str()); same("after a click"); break; }
    }
  }
};
int main(int argc, char** argv) {
  vc::init(argc, argv); if (!freopen("/dev/null", "w", stdout)) return 9;
  auto& c = vc::ctx(); for (int i = 0; i < 5; i++) TREE[i] = tree(1.0, mapOf(i));
  struct Start { std::vector<int> ev; int depth; };
  std::vector<Start> starts{{{}, 3}, {{FOLLOW, M0}, 3}, {{FOLLOW, M0, CMD, GC, FLY}, 3}, {{FOLLOW, M0, CMD, FD, PLAN, GC, PLAN, CMD}, 3}, {{FOLLOW, M3, GC, FLY, FLY}, 3}, {{FOLLOW, M1, PLAN}, 3}, {{FOLLOW, M4, GL, PLAN, PLAN}, 2}};
  if (c.thorough) for (auto& s : starts) s.depth = 4;
  uint64_t it = 0;
  for (auto& s : starts) for (size_t ci = 0; ci < 4; ci++) {
    uint64_t total = 1; for (int i = 0; i < s.depth; i++) total *= NEV;
    for (uint64_t h = 0; h < total; h++) {
      if (!vc::mine(it++)) continue;
      Sys y(CFG[ci]); y.H = std::string("settings ") + CFG[ci].name + ": "; for (int e : s.ev) y.event(e);
      uint64_t q = h; for (int i = 0; i < s.depth; i++) { y.event(q % NEV); q /= NEV; }
      y.event(FLY); if (h % 4 == 0) y.event(FLY);
      c.states++; c.traces++;
    }
  }
  // complete flights: until the goal is reached, the vehicle only moves to its setpoints
  for (size_t ci = 0; ci < 4; ci++) for (int m = 0; m < 5; m += m ? 1 : 3) for (int g = 0; g < 3; g++) for (int k = 0; k < 2; k++) {
    if (!vc::mine(it++)) continue; Sys y(CFG[ci]); y.H = std::string("flight, settings ") + CFG[ci].name + ": "; y.event(FOLLOW); if (m == 4 && g) continue; y.event(m == 4 ? M4 : M0 + m); y.event(m == 4 ? GL : g == 0 ? GC : g == 1 ? FD : GA); if (k) y.event(VEL), y.event(VEL);
    GoalM G = y.goal; double best = 1e9; for (int i = 0; i < 40; i++) { y.event(FLY); best = std::min(best, std::fabs(ctr(G.c[0]) - y.pos.x) + std::fabs(ctr(G.c[1]) - y.pos.y) + std::fabs(ctr(G.c[2]) - y.pos.z)); }
    CK(best < G.r, "goal_not_reached", "%s: came within %g", y.H.c_str(), best); c.traces++; c.states++;
  }
  for (auto& kv : c.info) vc::sample("%s: %llu", kv.first.c_str(), (unsigned long long)kv.second);
  return vc::done();
}
