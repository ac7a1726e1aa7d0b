// C19: goal, flight mode and flag tracking of the local planner node over every short history of input messages.
#include "vc.h"
#include <local_planner/local_planner_nodelet.h>
#include <local_planner/local_planner.h>
#include <local_planner/waypoint_generator.h>
using namespace avoidance;
typedef Eigen::Vector3f V3;
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
static const V3 NANV(NAN, NAN, NAN);
static const V3 P1[] = {V3(5, 1, 3), V3(-7, 2, 4), NANV};
static const V3 P2[] = {V3(20, 5, 6), V3(20.005f, 5, 6), V3(30, -5, 8), NANV, V3(0, 0, 0)};
static const V3 VEL[] = {V3(1, 2, 3), V3(NAN, NAN, -0.7f), NANV};
struct Ev { int kind; int a = 0, b = 0, v0 = 0, v1 = 0, c0 = 0, c1 = 0; };  // 0 fcu, 1 clicked, 2 goal topic, 3 planner picks up, 4 state, 5 setpoint step
static std::string show(const std::vector<Ev>& h) {
  std::string s; char b[160];
  static const char* C0[] = {"waypoint", "takeoff", "land"};
  for (auto& e : h) {
    if (e.kind == 0) snprintf(b, sizeof b, "[input point1 %s%d point2 %s%d %s%s] ", e.v0 ? "" : "invalid ", e.a, e.v1 ? "" : "invalid ", e.b, C0[e.c0], e.c1 ? " no-command" : "");
    else if (e.kind == 1) snprintf(b, sizeof b, "[clicked %d] ", e.a);
    else if (e.kind == 2) snprintf(b, sizeof b, "[goal topic %d]", e.a);
    else if (e.kind == 3) snprintf(b, sizeof b, "[plan] "); else if (e.kind == 4) snprintf(b, sizeof b, "[state %d %d] ", e.a, e.b); else snprintf(b, sizeof b, "[step] ");
    s += b;
  }
  return s;
}
static bool same(const V3& a, const V3& b) { for (int i = 0; i < 3; i++) if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false; return true; }
static std::string P(const V3& v) { char b[80]; snprintf(b, sizeof b, "(%g %g %g)", v.x(), v.y(), v.z()); return b; }
static geometry_msgs::Point pt(const V3& v) { geometry_msgs::Point p; p.x = v.x(); p.y = v.y(); p.z = v.z(); return p; }
struct M { const char* s; NavigationState n; };
static const M MODES[] = {{"AUTO.MISSION", NavigationState::mission}, {"AUTO.TAKEOFF", NavigationState::auto_takeoff}, {"AUTO.LAND", NavigationState::auto_land}, {"AUTO.RTL", NavigationState::auto_rtl}, {"AUTO.RTGS", NavigationState::auto_rtgs}, {"AUTO.LOITER", NavigationState::auto_loiter}, {"OFFBOARD", NavigationState::offboard},
  {"", NavigationState::none}, {"MANUAL", NavigationState::none}, {"POSCTL", NavigationState::none}, {"ALTCTL", NavigationState::none}, {"STABILIZED", NavigationState::none}, {"ACRO", NavigationState::none}, {"RATTITUDE", NavigationState::none}, {"AUTO.READY", NavigationState::none}, {"AUTO", NavigationState::none}, {"AUTO.MISSION ", NavigationState::none}, {"auto.mission", NavigationState::none}, {"AUTO.LANDING", NavigationState::none}, {"AUTO.FOLLOW_TARGET", NavigationState::none}, {"CMODE(65536)", NavigationState::none}, {"OFFBOARD2", NavigationState::none}, {"AUTO.PRECLAND", NavigationState::none}};
static const V3 CLICK[] = {V3(9, 9, 1), V3(-4, 12, 2)};
static const V3 TOPIC[] = {V3(40, 0, 7), V3(1, 1, 9)};
static bool accept_topic;
static void run(const std::vector<Ev>& h) {
  auto& c = vc::ctx();
  shim::bus().clear(); shim::clock_ns = 1000LL * 1000000000LL;
  shim::bus().params_b["accept_goal_input_topic"] = accept_topic;
  std::string S = show(h); const char* s = S.c_str();
  vc::cur("%s", s);
  alignas(64) static unsigned char mem[sizeof(LocalPlannerNodelet)];
  memset(mem, 0x4b, sizeof mem);
  LocalPlannerNodelet* np = new (mem) LocalPlannerNodelet();
  { LocalPlannerNodelet& n = *np;
    n.InitializeNodelet();
    V3 goal(0, 0, 0), prev(0, 0, 0), item(0, 0, 0), des = NANV, pgoal(0, 0, 0), pprev(0, 0, 0); bool fresh = true, land = false, take = false, has_item = false, armed = false;
    NavigationState nav = NavigationState::none;
    pgoal = n.local_planner_->getGoal();
    mavros_msgs::State st0; 
    for (size_t i = 0; i < h.size(); i++) {
      const Ev& e = h[i]; c.transitions++;
      if (e.kind == 0) {
        mavros_msgs::Trajectory t; t.point_valid[0] = e.v0; t.point_valid[1] = e.v1;
        t.point_1.position = pt(P1[e.a]); t.point_2.position = pt(P2[e.b]); const V3& v = VEL[(e.a + e.b) % 3]; t.point_1.velocity.x = v.x(); t.point_1.velocity.y = v.y(); t.point_1.velocity.z = v.z();
        t.command[0] = e.c0 == 0 ? 16 : e.c0 == 1 ? 22 : 21; t.command[1] = e.c1 ? 65535 : 16;
        shim::deliver("mavros/trajectory/desired", t);
        bool moved = !has_item || (P2[e.b] - item).norm() > 0.01f;
        bool update = moved || !std::isfinite(goal.x()) || !std::isfinite(goal.y());
        if (e.v0 && update) { prev = goal; goal = P1[e.a]; des = v; land = e.c0 == 2; take = e.c0 == 1; fresh = true; }
        if (e.v1) { item = P2[e.b]; has_item = true; if (e.c1) { if (!(goal == item)) fresh = true; goal = item; des = NANV; } }
      } else if (e.kind == 1) {
        geometry_msgs::PoseStamped p; p.pose.position = pt(CLICK[e.a]); p.pose.orientation.w = 1; shim::deliver("move_base_simple/goal", p);
        prev = goal; goal = CLICK[e.a]; goal.z() = pgoal.z(); fresh = true;
      } else if (e.kind == 2) {
        visualization_msgs::MarkerArray a; for (int k = 0; k < e.a; k++) { visualization_msgs::Marker m; m.pose.position = pt(TOPIC[(k + e.b) % 2]); m.pose.orientation.w = 1; a.markers.push_back(m); }
        shim::deliver("input/goal_position", a);
        if (accept_topic && e.a) { prev = goal; goal = TOPIC[e.b % 2]; fresh = true; }
      } else if (e.kind == 3) {
        n.updatePlannerInfo(); if (fresh) { pgoal = goal; pprev = prev; fresh = false; }
      } else if (e.kind == 4) {
        mavros_msgs::State m; m.mode = MODES[e.a].s; m.armed = e.b; shim::deliver("mavros/state", m); nav = MODES[e.a].n; armed = e.b;
      }
      CK(same(n.goal_position_, goal), "goal", "accept topic %d, %s: step %zu leaves goal %s, expected %s", accept_topic, s, i, P(n.goal_position_).c_str(), P(goal).c_str());
      CK(same(n.prev_goal_position_, prev), "previous-goal", "accept topic %d, %s: step %zu leaves previous goal %s, expected %s", accept_topic, s, i, P(n.prev_goal_position_).c_str(), P(prev).c_str());
      CK(same(n.desired_velocity_, des), "velocity", "%s: step %zu leaves velocity %s, expected %s", s, i, P(n.desired_velocity_).c_str(), P(des).c_str());
      CK(n.is_land_waypoint_ == land && n.is_takeoff_waypoint_ == take, "waypoint-kind", "%s: step %zu land %d takeoff %d", s, i, (int)n.is_land_waypoint_, (int)n.is_takeoff_waypoint_);
      CK(n.nav_state_ == nav && n.armed_ == armed, "mode", "%s: step %zu mode %d armed %d, expected %d %d", s, i, (int)n.nav_state_, (int)n.armed_, (int)nav, (int)armed);
      CK(same(n.local_planner_->getGoal(), pgoal), "planner-goal", "accept topic %d, %s: step %zu the planner works on goal %s, expected %s", accept_topic, s, i, P(n.local_planner_->getGoal()).c_str(), P(pgoal).c_str());
      if (e.kind == 3) {
        CK(same(pgoal, goal), "planner-lags", "accept topic %d, %s: step %zu planner goal %s differs from %s after a pick-up", accept_topic, s, i, P(pgoal).c_str(), P(goal).c_str());
        CK(same(n.local_planner_->prev_goal_, pprev), "planner-previous", "%s: step %zu the planner's previous goal is %s, expected %s", s, i, P(n.local_planner_->prev_goal_).c_str(), P(pprev).c_str());
        CK(n.local_planner_->currently_armed_ == armed, "planner-armed", "%s: step %zu", s, i);
      }
      if (e.kind == 5) {
        geometry_msgs::PoseStamped p; p.pose.position = pt(V3(1, 2, 5)); p.pose.orientation.w = 1; shim::deliver("mavros/local_position/pose", p);
        n.wp_generator_->setPlannerInfo(n.local_planner_->getAvoidanceOutput());
        n.calculateWaypoints(e.a);
        WaypointGenerator& w = *n.wp_generator_;
        CK(same(w.goal_, goal) || (w.goal_.z() == goal.z() && nav == NavigationState::offboard), "setpoint-goal", "%s: step %zu setpoints aim for %s, expected %s", s, i, P(w.goal_).c_str(), P(goal).c_str());
        CK(w.nav_state_ == nav && w.is_airborne_ == (armed && nav != NavigationState::none) && w.loiter_ == (bool)e.a && w.is_land_waypoint_ == land && w.is_takeoff_waypoint_ == take && same(w.desired_vel_, des) && same(w.position_, V3(1, 2, 5)), "setpoint-inputs", "%s: step %zu mode %d airborne %d hold %d land %d takeoff %d velocity %s", s, i, (int)w.nav_state_, (int)w.is_airborne_, (int)w.loiter_, (int)w.is_land_waypoint_, (int)w.is_takeoff_waypoint_, P(w.desired_vel_).c_str());
      }
      vc::outcome(vc::mix(vc::mix(vc::hashf(goal.x()), vc::hashf(prev.x())), vc::mix(land * 2 + take, vc::mix((int)nav * 2 + armed, fresh))));
    }
  }
  np->~LocalPlannerNodelet();
  c.traces++; c.states += h.size();
}
int main(int argc, char** argv) {
  vc::init(argc, argv);
  auto& c = vc::ctx();
  std::vector<Ev> all, mid, red;
  for (int a = 0; a < 3; a++) for (int b = 0; b < 5; b++) for (int v = 0; v < 4; v++) for (int c0 = 0; c0 < 3; c0++) for (int c1 = 0; c1 < 2; c1++) { Ev e{0, a, b, v & 1, v >> 1, c0, c1}; all.push_back(e); if ((v == 3 || a == 0) && (v == 3 || c0 == 0) && (c0 < 2 || a == 0)) mid.push_back(e); if (a == b % 2 && v == 3 && c0 == (b == 2 ? 2 : 0) && b < 4) red.push_back(e); if (a == 1 && b == 2 && v == 2 && c0 == 0) red.push_back(e); }
  std::vector<Ev> rest; for (int k = 0; k < 2; k++) rest.push_back({1, k}); for (int k = 0; k < 3; k++) rest.push_back({2, k}); rest.push_back({2, 1, 1}); rest.push_back({3}); rest.push_back({5, 0}); rest.push_back({5, 1}); rest.push_back({4, 0, 1}); rest.push_back({4, 6, 1});
  for (auto& e : rest) { all.push_back(e); mid.push_back(e); red.push_back(e); }
  uint64_t item = 0;
  Ev plan{3}, step{5};
  for (int at = 0; at < 2; at++) {
    accept_topic = at;
    for (auto& a : all) for (auto& b : mid) { if (!vc::mine(item++)) continue; run({a, b, plan, step}); if (c.thorough || at) run({a, plan, b, plan, step}); }
    for (auto& a : red) for (auto& b : red) { if (!vc::mine(item++)) continue; for (auto& d : red) { run({a, b, d, plan, step}); if (c.thorough) for (auto& e : red) run({a, b, d, e, plan, step}); } }
  }
  int nm = sizeof MODES / sizeof MODES[0];
  for (int a = 0; a < nm; a++) for (int b = 0; b < nm; b++) for (int k = 0; k < 4; k++) { if (!vc::mine(item++)) continue; run({{4, a, k & 1}, {5, 0}, {4, b, k >> 1}, {3}, {5, 1}}); }
  vc::sample("%s", show({all[10], mid[5], plan, step}).c_str());
  return vc::done();
}
