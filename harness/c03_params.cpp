// C03: parameter tracking, parameter polling and mission speed, all message histories to the bound.
#include "vc.h"
#include <avoidance/avoidance_node.h>
using namespace avoidance;
static const char* N[] = {"MPC_ACC_DOWN_MAX", "MPC_ACC_HOR", "MPC_ACC_UP_MAX", "MPC_AUTO_MODE", "MPC_JERK_MIN", "MPC_JERK_MAX", "MPC_LAND_SPEED", "MPC_TKO_SPEED", "MPC_XY_CRUISE", "MPC_Z_VEL_MAX_DN", "MPC_Z_VEL_MAX_UP", "CP_DIST", "NAV_ACC_RAD", "MPC_YAWRAUTO_MAX"};
static const int NP = 14;
static const char* X[] = {"FOO", "MPC_ACC", "MPC_ACC_HOR_MAX", "", "mpc_acc_hor", "MPC_JERK_MAX2", "NAV_ACC_RAD "};
static std::array<double, NP> fields(const ModelParameters& p) {
  return {p.param_mpc_acc_down_max, p.param_mpc_acc_hor, p.param_mpc_acc_up_max, (double)p.param_mpc_auto_mode, p.param_mpc_jerk_min, p.param_mpc_jerk_max, p.param_mpc_land_speed, p.param_mpc_tko_speed, p.param_mpc_xy_cruise, p.param_mpc_z_vel_max_dn, p.param_mpc_z_vel_max_up, p.param_cp_dist, p.param_nav_acc_rad, p.param_mpc_yawrauto_max};
}
static bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || (float)a == (float)b; }
struct M { int name, v; };  // name >= NP: not a planner parameter
static const int VI[] = {3, 0, -2};
static const double VR[] = {1.25, 0.0, -7.5};
static std::string nm(int i) { return i < NP ? N[i] : X[i - NP]; }
static void params() {
  auto& c = vc::ctx();
  int depth = c.thorough ? 4 : 3, nn = NP + 7;
  std::vector<M> h;
  uint64_t item = 0;
  ros::NodeHandle nh;
  std::function<void(int)> rec = [&](int d) {
    if (d == depth) {
      shim::bus().clear(); shim::bus().record = false;
      AvoidanceNode node(nh, nh);
      node.init();
      std::array<double, NP> want = fields(node.getPX4Parameters());
      std::string desc;
      for (size_t k = 0; k < h.size(); k++) {
        mavros_msgs::Param m; m.param_id = nm(h[k].name); m.value.integer = VI[h[k].v]; m.value.real = VR[h[k].v];
        desc += "[" + m.param_id + " int " + std::to_string(VI[h[k].v]) + " real " + std::to_string(VR[h[k].v]) + "] ";
        vc::cur("parameter messages %s", desc.c_str());
        shim::deliver("mavros/param/param_value", m);
        if (h[k].name < NP) want[h[k].name] = h[k].name == 3 ? VI[h[k].v] : VR[h[k].v];
        auto got = fields(node.getPX4Parameters());
        for (int i = 0; i < NP; i++)
          if (!same(got[i], want[i])) vc::fail(std::string("param:") + N[i], "after parameter messages %s: %s is %g, expected %g", desc.c_str(), N[i], got[i], want[i]);
        c.transitions++;
        for (double x : want) vc::outcome(vc::mix(k, vc::hashf(x)));
      }
      c.traces++; c.states++;
      return;
    }
    for (int i = 0; i < nn; i++) for (int v = 0; v < (d < 2 ? 3 : 1); v++) { if (d == 1 && !vc::mine(item++)) continue; h.push_back({i, v}); rec(d + 1); h.pop_back(); }
  };
  rec(0);
}
// polling: any subset of the requests may be answered
static void polling() {
  auto& c = vc::ctx();
  static const int P[] = {1, 0, 2, 8, 9, 10, 11, 6, 5, 12, 13};
  for (int mask = 0; mask < 2048; mask++) {
    if (!vc::mine(mask)) continue;
    // bit set: answered with success; otherwise refused (even masks) or unreachable
    shim::bus().clear(); shim::bus().record = false;
    std::mutex m; std::map<std::string, int> asked;
    shim::bus().service = [&](const std::string& s, std::type_index t, void* p) {
      auto* r = (mavros_msgs::ParamGet*)p;
      std::lock_guard<std::mutex> l(m);
      asked[r->request.param_id]++;
      for (int i = 0; i < 11; i++) if (r->request.param_id == N[P[i]]) {
        r->response.value.real = 100 + P[i]; r->response.value.integer = 500 + P[i];
        r->response.success = (mask >> i) & 1;
        return ((mask >> i) & 1) || !(mask & 1);
      }
      r->response.success = false;
      return false;
    };
    vc::cur("polling, answered set %x", mask);
    ros::NodeHandle nh;
    {
      AvoidanceNode node(nh, nh);
      std::array<double, NP> want = fields(node.getPX4Parameters());
      for (int i = 0; i < 11; i++) if ((mask >> i) & 1) want[P[i]] = 100 + P[i];
      node.init();
      bool all = false;
      for (int w = 0; w < 4000 && !all; w++) {
        { std::lock_guard<std::mutex> l(m); all = true; for (int i = 0; i < 11; i++) if (!asked.count(N[P[i]])) all = false; }
        if (!all) std::this_thread::sleep_for(std::chrono::milliseconds(w < 100 ? 0 : 1));
      }
      if (!all) { for (int i = 0; i < 11; i++) if (!asked.count(N[P[i]])) vc::fail(std::string("poll-missing:") + N[P[i]], "parameter %s is never requested", N[P[i]]); }
      auto got = fields(node.getPX4Parameters());
      for (int w = 0; w < 1000; w++) {  // the last answer may not be stored yet
        bool eq = true;
        for (int i = 0; i < NP; i++) if (!same(got[i], want[i])) eq = false;
        if (eq) break;
        std::this_thread::sleep_for(std::chrono::milliseconds(w < 100 ? 0 : 2));
        got = fields(node.getPX4Parameters());
      }
      for (int i = 0; i < NP; i++) if (!same(got[i], want[i])) vc::fail(std::string("poll:") + N[i], "polled answers %x: %s is %g, expected %g", mask, N[i], got[i], want[i]);
      c.transitions += 11; c.states++;
    }
    shim::bus().service = nullptr;
  }
}
struct Item { bool speed; float p1, p2; };
static const Item IT[] = {{false, 1, 11}, {true, 1, 5}, {true, 1, 0.3f}, {true, 1, -1}, {true, 0, 6}, {true, 2, 8}, {true, -1, 9}, {true, 1, 0}};
static const int NI = 8;
struct ML { std::vector<int> it; int cur; };
static std::string show(const ML& l) {
  std::string s = "{"; char b[80];
  for (size_t i = 0; i < l.it.size(); i++) { snprintf(b, sizeof b, "%s%s(%g,%g) ", (int)i == l.cur ? "*" : "", IT[l.it[i]].speed ? "speed" : "wp", IT[l.it[i]].p1, IT[l.it[i]].p2); s += b; }
  return s + "} ";
}
static void missions() {
  auto& c = vc::ctx();
  std::vector<ML> lists;
  int maxlen = c.thorough ? 4 : 3;
  for (int n = 0; n <= maxlen; n++) {
    int tot = 1; for (int i = 0; i < n; i++) tot *= NI;
    for (int x = 0; x < tot; x++) for (int cur = -1; cur < n; cur++) { ML l; int y = x; for (int i = 0; i < n; i++) { l.it.push_back(y % NI); y /= NI; } l.cur = cur; lists.push_back(l); }
  }
  std::vector<mavros_msgs::WaypointList> msgs;
  for (auto& l : lists) {
    mavros_msgs::WaypointList m;
    for (size_t i = 0; i < l.it.size(); i++) { mavros_msgs::Waypoint w; w.command = IT[l.it[i]].speed ? (int)MavCommand::MAV_CMD_DO_CHANGE_SPEED : 16; w.param1 = IT[l.it[i]].p1; w.param2 = IT[l.it[i]].p2; w.is_current = (int)i == l.cur; m.waypoints.push_back(w); }
    msgs.push_back(m);
  }
  auto ref = [](const ML& l, double prev) {
    for (int i = l.cur; i >= 0; i--) { const Item& t = IT[l.it[i]]; if (t.speed && t.p1 == 1 && t.p2 > 0) return (double)t.p2; }
    return prev;
  };
  ros::NodeHandle nh;
  shim::bus().clear(); shim::bus().record = false;
  c.info["mission_lists"] = vc::ctx().shard == 0 ? lists.size() : 0;
  size_t second = c.thorough ? 600 : lists.size();
  for (size_t a = 0; a < lists.size(); a++) {
    if (!vc::mine(a)) continue;
    for (size_t b = 0; b < second; b++) {
      AvoidanceNode node(nh, nh);
      double want = NAN;
      vc::cur("mission lists %s%s", show(lists[a]).c_str(), show(lists[b]).c_str());
      for (size_t k = 0; k < 2; k++) {
        size_t i = k ? b : a;
        node.missionCallback(msgs[i]);
        want = ref(lists[i], want);
        double got = node.getMissionItemSpeed();
        c.transitions++;
        if (!same(got, want)) vc::fail("mission-speed", "mission lists %s%s: after list %zu mission speed %g, expected %g", show(lists[a]).c_str(), show(lists[b]).c_str(), k, got, want);
        vc::outcome(vc::mix(9, vc::hashf(got)));
      }
      c.traces++;
    }
    c.states++;
  }
}
int main(int argc, char** argv) {
  vc::init(argc, argv);
  params(); polling(); missions();
  vc::sample("parameter messages [MPC_ACC_HOR][FOO][MPC_AUTO_MODE]; polled answer set 0x2a5; mission %s", show(ML{{1, 4, 0}, 2}).c_str());
  return vc::done();
}
