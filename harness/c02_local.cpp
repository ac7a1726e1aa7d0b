#include "c02.h"
#include <local_planner/local_planner_nodelet.h>
#include <local_planner/local_planner.h>
#include <local_planner/waypoint_generator.h>
static void onNode() {
  auto& c = vc::ctx();
  std::vector<int64_t> t;
  for (int64_t b : {500 * MS, 5000 * MS, 15000 * MS}) for (int64_t d : {-1LL, 0LL, 1LL, -200 * (long long)MS, 200 * (long long)MS}) t.push_back(b + d);
  t.push_back(0); t.push_back(60000 * MS); t.push_back(100 * MS); t.push_back(10000 * MS);
  int n = t.size(), depth = c.thorough ? 3 : 2;
  struct Step { int a, b, h; };
  std::vector<Step> al;
  // hover is cleared before the step (h=1) or carried over from the previous one (h=0)
  for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int h = 0; h < 2; h++) al.push_back({a, b, h});
  std::vector<int64_t> tl = t;
  ros::NodeHandle nh;
  // every history of steps; the node under test is used through its public interface
  AvoidanceNode node(nh, nh);
  node.init();
  std::vector<std::shared_ptr<shim::TimerRec>> timers = shim::bus().timers;
  auto beat = [&]() { beats.clear(); for (auto& r : timers) if (std::fabs(r->period - 0.2) < 1e-9) r->cb(ros::TimerEvent()); };
  if (vc::ctx().shard == 0) {
    if ((int)node.getSystemStatus() != (int)MAV_STATE::MAV_STATE_BOOT) vc::fail("boot", "status after start is %d, expected boot", (int)node.getSystemStatus());
    beat();
    if (beats.size() != 1 || beats[0].state != (int)MAV_STATE::MAV_STATE_BOOT) vc::fail("heartbeat-missing", "no heartbeat with the boot state");
  }
  // the state before a history is any reachable (status, hover) pair
  std::vector<std::pair<int, bool>> init;
  for (int s : {(int)MAV_STATE::MAV_STATE_BOOT, (int)MAV_STATE::MAV_STATE_ACTIVE, (int)MAV_STATE::MAV_STATE_CRITICAL, (int)MAV_STATE::MAV_STATE_FLIGHT_TERMINATION}) for (bool h : {false, true}) init.push_back({s, h});
  uint64_t item = 0;
  std::vector<Step> st(depth);
  size_t A = al.size();
  size_t tot = 1; for (int i = 0; i < depth - 1; i++) tot *= A;
  // depth 3 keeps the first step to the boundary-only alphabet
  for (auto& in : init) for (size_t first = 0; first < A; first++) {
    if (!vc::mine(item++)) continue;
    size_t lim = depth == 3 ? 64 : A;
    for (size_t second = 0; second < A; second++) for (size_t third = 0; third < (depth == 3 ? lim : 1); third++) {
      node.setSystemStatus((MAV_STATE)in.first);
      int prev = in.first; bool hover = in.second, rh = in.second;
      for (int k = 0; k < depth; k++) {
        const Step& s = al[k == 0 ? first : k == 1 ? second : third * A / lim];
        if (s.h) hover = rh = false;
        vc::cur("step %d: cloud age %lld ns, since start %lld ns", k, (long long)t[s.a], (long long)t[s.b]);
        node.checkFailsafe(dur(t[s.a]), dur(t[s.b]), hover);
        int want = ref(t[s.a], t[s.b], rh, prev);
        int got = (int)node.getSystemStatus();
        c.transitions++;
        if (got != want) vc::fail("status", "AvoidanceNode: start status %d, cloud age %.9f s, %.9f s since start, hover %d: status %d, expected %d", prev, t[s.a] * 1e-9, t[s.b] * 1e-9, (int)rh, got, want);
        if (hover != rh) vc::fail("hover", "AvoidanceNode: cloud age %.9f s, %.9f s since start: hover request %d, expected %d", t[s.a] * 1e-9, t[s.b] * 1e-9, (int)hover, (int)rh);
        vc::outcome(vc::mix(want, rh));
        prev = want; hover = rh; node.setSystemStatus((MAV_STATE)want);
      }
      c.traces++;
    }
    beat();
    if (beats.size() != 1) vc::fail("heartbeat-missing", "status timer sent %zu heartbeats", beats.size());
    else if (beats[0].state != (int)node.getSystemStatus() || beats[0].component != 196) vc::fail("heartbeat", "heartbeat state %d component %d, status %d", (int)beats[0].state, (int)beats[0].component, (int)node.getSystemStatus());
    c.states++;
  }
}

static void nodelet_history(const std::vector<Ev>& h) {
  auto& c = vc::ctx();
  shim::bus().clear(); watch();
  shim::clock_ns = 1000LL * 1000000000LL;
  vc::cur("local planner node: %s", show(h).c_str());
  {
    LocalPlannerNodelet n;
    n.InitializeNodelet();
    std::vector<std::shared_ptr<shim::TimerRec>> before = shim::bus().timers;
    n.startNode();
    std::vector<std::shared_ptr<shim::TimerRec>> tick, beat;
    for (auto& r : shim::bus().timers) if (std::find(before.begin(), before.end(), r) == before.end()) (std::fabs(r->period - 0.1) < 1e-9 ? tick : beat).push_back(r);
    int64_t start = shim::clock_ns, last_plan = 0;
    auto pose = [] { geometry_msgs::PoseStamped p; p.pose.orientation.w = 1; p.pose.position.z = 5; shim::deliver("mavros/local_position/pose", p); };
    LocalPlannerNodeConfig cfg = LocalPlannerNodeConfig::__getDefault__();
    n.local_planner_->dynamicReconfigureSetParams(cfg, 0);
    n.wp_generator_->setPlannerInfo(n.local_planner_->getAvoidanceOutput());
    for (size_t k = 0; k < h.size(); k++) {
      shim::clock_ns += h[k].dt * MS;
      if (h[k].plan) { n.last_wp_time_ = ros::Time::now(); last_plan = shim::clock_ns; }
      int left = h[k].polls;
      int64_t wait0 = shim::clock_ns;
      bool bad_wait = false; int64_t when = 0; int seen = -1;
      if (left == 0) pose();
      shim::bus().on_call_available = [&] {
        int64_t waited = shim::clock_ns - wait0;
        if (waited > 15100 * MS) {  // the node has had a chance to notice
          for (auto& r : beat) { beats.clear(); r->cb(ros::TimerEvent()); for (auto& b : beats) if (b.state != (int)MAV_STATE::MAV_STATE_FLIGHT_TERMINATION) { bad_wait = true; when = waited; seen = b.state; } }
        }
        shim::clock_ns += 100 * MS;
        if (--left <= 0) pose();
      };
      trajs.clear();
      for (auto& r : tick) r->cb(ros::TimerEvent());
      shim::bus().on_call_available = nullptr;
      int64_t now = shim::clock_ns;
      bool hv = false;
      int want = ref(now - last_plan, now - start, hv, 0);
      beats.clear();
      for (auto& r : beat) r->cb(ros::TimerEvent());
      int got = beats.empty() ? -1 : beats.back().state;
      c.transitions++;
      if (bad_wait) vc::fail("node-no-position", "local planner node, history %s: no position for %.1f s but the heartbeat says %d", show(h).c_str(), when * 1e-9, seen);
      if (got != want) vc::fail("node-status", "local planner node, history %sstep %zu: planning data %.3f s old, %.3f s since start: heartbeat %d, expected %d", show(h).c_str(), k, (now - last_plan) * 1e-9, (now - start) * 1e-9, got, want);
      // a setpoint goes out exactly while the companion is active
      if ((want == (int)MAV_STATE::MAV_STATE_ACTIVE) != !trajs.empty()) vc::fail("node-setpoint", "local planner node, history %sstep %zu: status %d but %zu setpoints sent", show(h).c_str(), k, want, trajs.size());
      vc::outcome(vc::mix(vc::mix(want, k), trajs.size()));
      c.states++;
    }
  }
  c.traces++;
}


int main(int argc, char** argv) {
  vc::init(argc, argv);
  auto& c = vc::ctx();
  watch();
  onNode();
  std::vector<Ev> al = alphabet();
  int depth = c.thorough ? 4 : 3;
  uint64_t item = 0;
  std::vector<Ev> h;
  std::function<void(int)> rec = [&](int d) {
    if (d == depth) { nodelet_history(h); return; }
    for (auto& e : al) { if (d == 1 && !vc::mine(item++)) continue; h.push_back(e); rec(d + 1); h.pop_back(); }
  };
  rec(0);
  vc::sample("%d-step history %s", depth, show(std::vector<Ev>{al[0], al[7], al[29]}).c_str());
  return vc::done();
}
