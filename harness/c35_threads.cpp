// C35: polling of FCU parameters, parameter messages, mission lists, heartbeats and readers under every schedule within
// the bound; the FCU is a table of values which changes, announces its changes and answers requests after some time.
#include "vc.h"
#include "rosmt.h"
#include <avoidance/avoidance_node.h>
using namespace avoidance;
static const char* N[] = {"MPC_ACC_DOWN_MAX", "MPC_ACC_HOR", "MPC_ACC_UP_MAX", "MPC_AUTO_MODE", "MPC_JERK_MIN", "MPC_JERK_MAX", "MPC_LAND_SPEED", "MPC_TKO_SPEED", "MPC_XY_CRUISE", "MPC_Z_VEL_MAX_DN", "MPC_Z_VEL_MAX_UP", "CP_DIST", "NAV_ACC_RAD", "MPC_YAWRAUTO_MAX"};
static const int NP = 14;
static const bool POLLED[] = {1, 1, 1, 0, 0, 1, 1, 0, 1, 1, 1, 1, 1, 1};
static std::array<double, NP> fields(const ModelParameters& p) {
  return {p.param_mpc_acc_down_max, p.param_mpc_acc_hor, p.param_mpc_acc_up_max, (double)p.param_mpc_auto_mode, p.param_mpc_jerk_min, p.param_mpc_jerk_max, p.param_mpc_land_speed, p.param_mpc_tko_speed, p.param_mpc_xy_cruise, p.param_mpc_z_vel_max_dn, p.param_mpc_z_vel_max_up, p.param_cp_dist, p.param_nav_acc_rad, p.param_mpc_yawrauto_max};
}
static const int64_t MS = 1000000;
struct H {
  double fcu[NP]; bool reach = true; int refuse = -1; int64_t latency = 0; int asked = 0; int64_t last_asked = -1;
  std::vector<int> states; std::vector<int64_t> beats; int64_t maxgap = 0; bool stop = false; bool end = false;
};
static H* h;
static void body(int sc) {
  { mt::Q q; h = new H; for (int i = 0; i < NP; i++) h->fcu[i] = i + 1; }
  sched_focus(0);
  mt::install();
  auto& b = shim::bus();
  b.record = false;
  b.on_publish = [](const shim::Pub& p) {
    if (p.topic != "mavros/companion_process/status") return;
    auto& m = *(const mavros_msgs::CompanionProcessStatus*)p.msg.get();
    int64_t t = sched_idle();
    if (!h->beats.empty()) h->maxgap = std::max(h->maxgap, t - h->beats.back());
    h->beats.push_back(t); h->states.push_back(m.state);
  };
  b.service = [](const std::string&, std::type_index, void* p) {
    auto* r = (mavros_msgs::ParamGet*)p;
    sched_point("request sent", h);
    int k = -1; bool reach; int64_t lat;
    { mt::Q q; for (int i = 0; i < NP; i++) if (r->request.param_id == N[i]) k = i; h->asked++; reach = h->reach; lat = h->latency; }
    if (lat) sched_sleep(lat / 2);
    sched_point("FCU answers", h);
    double v; { mt::Q q; v = k < 0 ? 0 : h->fcu[k]; }
    if (lat) sched_sleep(lat / 2);
    bool refused; { mt::Q q; refused = h->refuse == k; }
    r->response.success = reach && k >= 0 && !refused;
    if (refused) r->response.value.real = 0;
    r->response.value.real = v; r->response.value.integer = (long)v;
    return reach;
  };
  if (sc == 0) sched_focus(1);
  ros::NodeHandle nh;
  AvoidanceNode* n = new AvoidanceNode(nh, nh);
  sched_atomic_range(n, sizeof *n);
  { mt::Q q; h->latency = sc == 2 || sc == 3 ? 400 * MS : sc == 1 ? 2 * MS : 0; h->reach = sc != 4; if (sc >= 10) h->refuse = sc - 10; }
  sched_name_next("poll");
  n->init();
  auto set = [&](int i, double v) {  // the value changes and the FCU announces it
    mavros_msgs::Param m; { mt::Q q; m.param_id = N[i]; m.value.real = v; m.value.integer = (long)v; }
    sched_point("FCU value changes", h); { mt::Q q; h->fcu[i] = v; }
    mt::push("mavros/param/param_value", m);
  };
  // a thread serves the callbacks, as the manager of a nodelet does
  sched_name_next("callbacks");
  int64_t slow_cb = 0;
  std::thread cb([&] {
    for (;;) {
      sched_block([](void*) -> int { return h->end || mt::runnable(); }, nullptr, -1, "waits for callbacks");
      bool end; { mt::Q q; end = h->end && mt::st().q.empty(); }
      if (end) break;
      int64_t f = sched_idle(); mt::call_one(); int64_t d = sched_idle() - f;
      mt::Q q; if (sc != 0 && !h->stop) slow_cb = std::max(slow_cb, d);
    }
  });
  auto get = [&](const char* what) {
    int64_t f = sched_idle();
    ModelParameters p = n->getPX4Parameters();
    int64_t d = sched_idle() - f;
    if (d > 0) sched_fail("reader-waits", "%s: reading the parameters took %g s", what, d * 1e-9);
    return fields(p);
  };
  auto handled = [&] { while (!sched_block([](void*) -> int { return mt::st().q.empty() && mt::st().busy.empty(); }, nullptr, 100 * MS, "all messages handled")) {} };
  auto agree = [&](const char* when, bool all) {
    auto g = get(when);
    for (int i = 0; i < NP; i++) {
      if (POLLED[i] ? !(g[i] == h->fcu[i]) && (all || !std::isnan(g[i])) : false) sched_fail("stale-parameter", "%s: %s is %g, the FCU has %g", when, N[i], g[i], h->fcu[i]);
    }
  };
  auto pass = [&](int64_t ns) { int64_t to = sched_idle() + ns; while (sched_idle() < to) sched_sleep(to - sched_idle()); };  // every thread had time for its work
  if (sc == 0) {
  } else if (sc == 1) {  // values change while they are asked for; the reader never waits
    sched_focus(1);
    sched_sleep(MS + MS / 2);       // inside of the first request (MPC_ACC_HOR)
    set(1, 51); get("during polling");
    sched_sleep(MS);
    set(1, 52);
    sched_sleep(MS);
    set(0, 53);
    handled();
    pass(80 * MS); sched_focus(0);
    agree("after the first requests", false);
    set(12, 54); handled();
    pass(6000 * MS);
    agree("after the second requests", true);
  } else if (sc == 2) {  // slow answers: readers, callbacks and heartbeats go on
    sched_sleep(500 * MS);
    sched_focus(1);
    set(8, 60); get("during a long request");
    n->setSystemStatus(MAV_STATE::MAV_STATE_ACTIVE);
    mavros_msgs::WaypointList w; { mt::Q q; w.waypoints.resize(1); w.waypoints[0].is_current = true; w.waypoints[0].command = (int)MavCommand::MAV_CMD_DO_CHANGE_SPEED; w.waypoints[0].param1 = 1; w.waypoints[0].param2 = 4; }
    mt::push("mavros/mission/waypoints", w);
    pass(450 * MS);
    n->getMissionItemSpeed();
    handled();
    if (n->getMissionItemSpeed() != 4) sched_fail("mission-speed", "the mission speed is %g", n->getMissionItemSpeed());
    if (get("later")[8] != 60) sched_fail("stale-parameter", "announced value not taken over");
    pass(450 * MS);
    { mt::Q q; if (h->states.back() != (int)MAV_STATE::MAV_STATE_ACTIVE) sched_fail("stale-status", "heartbeats still tell status %d", h->states.back()); }
  } else if (sc == 3) {  // stop inside of a request which takes long, messages still arriving
    sched_sleep(500 * MS);
    sched_focus(1);
    set(6, 70); 
  } else if (sc == 4) {  // FCU not reachable at first: asked again until everything is known, then for changes
    sched_sleep(3000 * MS);
    { mt::Q q; h->reach = true; h->fcu[11] = 80; }
    sched_sleep(1900 * MS);
    sched_focus(1);
    pass(300 * MS);
    agree("5 s after the FCU is there", true);
    sched_focus(0);
    { mt::Q q; h->fcu[11] = 81; h->asked = 0; }   // a change whose message was lost
    sched_sleep(29000 * MS); sched_focus(1); pass(1500 * MS); sched_focus(0);
    agree("30 s after a lost message", true);
    int a; { mt::Q q; a = h->asked; }
    if (a > 22) sched_fail("too-many-requests", "%d requests in 30 s although everything is known", a);
  }
  if (sc >= 10) {  // one parameter is not known to the FCU at first
    sched_sleep(3000 * MS);
    if (POLLED[sc - 10] && !std::isnan(get("refused")[sc - 10])) sched_fail("refused-parameter", "the refused parameter %s is %g", N[sc - 10], get("refused")[sc - 10]);
    { mt::Q q; h->refuse = -1; }
    pass(2500 * MS);
    agree("5 s after one parameter was refused", true);
  }
  // the node goes while its callbacks are still served
  { mt::Q q; h->stop = true; }
  int64_t from = sched_idle();
  if (sc) sched_focus(1);
  if (sc == 3) { mavros_msgs::Param m; { mt::Q q; m.param_id = N[6]; m.value.real = 71; } mt::push("mavros/param/param_value", m); }
  delete n;
  double took = (sched_idle() - from) * 1e-9;
  sched_focus(0);
  { mt::Q q; h->end = true; }
  cb.join();
  if (sched_live()) sched_fail("threads-left", "%d threads still run after the node is gone", sched_live());
  if (took > h->latency * 1e-9 + 0.01) sched_fail("slow-stop", "stopping took %g s although one request takes %g s", took, h->latency * 1e-9);
  if (slow_cb > 0) sched_fail("callback-waits", "a callback took %g s", slow_cb * 1e-9);
  if (sc && h->beats.size() > 1 && h->maxgap > 202 * MS) sched_fail("heartbeat-gap", "%g s between two heartbeats", h->maxgap * 1e-9);
  if (sc >= 2 && h->beats.size() < 2) sched_fail("no-heartbeat", "%zu heartbeats", h->beats.size());
  sched_outcome(vc::mix(h->beats.size(), h->asked));
}
static void report(const char* key, const char* text) { vc::fail(key, "%s", text); }
int main(int argc, char** argv) {
  if (!getenv("SCHED_SC") && !freopen("/dev/null", "w", stdout)) return 9;
  if (argc > 3 && std::string(argv[1]) == "--replay") { sched_replay(body, atoi(argv[2]), argv[3]); return 0; }
  vc::init(argc, argv);
  auto& c = vc::ctx();
  const char* names[] = {"start and stop", "values change while they are asked for", "slow answers", "stop inside of a request", "FCU not reachable at first"};
  int only = getenv("SCHED_SC") ? atoi(getenv("SCHED_SC")) : -1;
  for (int k = 0; k < NP; k++) if (POLLED[k]) {
    vc::cur("%s is refused at first", N[k]);
    SchedOptions o; o.block_cost = 1; o.must = 0; o.bound = 0; o.seconds = 5;
    auto s = sched_explore(body, 10 + k, o, report);
    c.states += s.states; c.transitions += s.events; c.traces += s.execs; c.evals += s.execs;
    if (s.full < 0) c.exhaustive = false;
  }
  for (int k = 0; k < 10; k++) {
    int sc = k / 2;
    if (only >= 0 && sc != only) continue;
    SchedOptions o; o.lifo = k & 1; o.block_cost = 1; o.must = 1;
    o.bound = getenv("SCHED_BOUND") ? atoi(getenv("SCHED_BOUND")) : c.thorough ? 5 : 3;
    o.seconds = getenv("SCHED_SECS") ? atof(getenv("SCHED_SECS")) : c.thorough ? 300 : 6;
    vc::cur("scenario %s", names[sc]);
    auto s = sched_explore(body, sc, o, report);
    c.states += s.states; c.transitions += s.events; c.traces += s.execs; c.evals += s.execs;
    for (uint64_t i = 0; i < s.outcomes; i++) vc::outcome(vc::mix(sc, i));
    for (uint64_t i = 0; i < s.outcomes; i++) vc::outcome(vc::mix(sc, i));
    if (s.full < 1) c.exhaustive = false;
    const char* pn = o.lifo ? "last woken first" : "round robin";
    vc::sample("%s, %s: %lu schedules (%lu cut where they joined an explored one), %lu states, up to %lu choices; all with up to %d deviations", names[sc], pn, s.execs, s.pruned, s.states, s.maxpoints, s.full);
    c.info[std::string("schedules: ") + names[sc] + ", " + pn] = s.execs;
    if (getenv("SCHED_SECS") || getenv("SCHED_SC")) fprintf(stderr, "%s: execs %lu pruned %lu states %lu events %lu max points %lu outcomes %lu fails %lu complete %d full %d\n", names[sc], s.execs, s.pruned, s.states, s.events, s.maxpoints, s.outcomes, s.fails, s.complete, s.full);
    if (s.fails && !c.thorough) break;
  }
  return vc::done();
}
