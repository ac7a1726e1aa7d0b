#include "c02.h"
#include <safe_landing_planner/safe_landing_planner_node.hpp>
static void slp_history(const std::vector<Ev>& h, double C, double T) {
  auto& c = vc::ctx();
  shim::bus().clear(); watch();
  shim::clock_ns = 1000LL * 1000000000LL;
  shim::bus().params_b["play_rosbag"] = true;  // lets the harness hand in map data through a topic
  vc::cur("landing planner node (limits %.1f/%.1f s): %s", C, T, show(h).c_str());
  SafeLandingPlannerNode* n = new SafeLandingPlannerNode(ros::NodeHandle());
  safe_landing_planner::SafeLandingPlannerNodeConfig cfg = safe_landing_planner::SafeLandingPlannerNodeConfig::__getDefault__();
  cfg.grid_size = 4; cfg.cell_size = 2; cfg.smoothing_size = 0; cfg.timeout_critical = C; cfg.timeout_termination = T;
  n->server_.shim_reconfigure(cfg);
  n->cloud_msg_mutex_.reset(new std::mutex); n->transformed_cloud_mutex_.reset(new std::mutex); n->cloud_ready_cv_.reset(new std::condition_variable);
  safe_landing_planner::SLPGridMsg g;
  g.grid_size = 4; g.cell_size = 2;
  for (auto* l : {&g.mean.layout, &g.std_dev.layout}) { l->dim.resize(2); l->dim[0].size = l->dim[1].size = 2; }
  g.counter.layout = g.mean.layout; g.land.layout = g.mean.layout;
  g.mean.data.assign(4, 0.f); g.std_dev.data.assign(4, 0.f); g.counter.data.assign(4, 20); g.land.data.assign(4, 0);
  int64_t start = shim::clock_ns, last = 0, last_sent = 0;
  bool have = false;
  std::vector<std::pair<int64_t, int>> sent;
  auto watch2 = [&](const shim::Pub& p) { if (p.topic.find("companion_process/status") != std::string::npos) sent.push_back({shim::clock_ns, (int)((const Status*)p.msg.get())->state}); };
  shim::bus().on_publish = watch2;
  for (size_t k = 0; k < h.size(); k++) {
    shim::clock_ns += h[k].dt * MS;
    int left = h[k].polls;
    if (left == 0) shim::deliver("/raw_grid_slp", g);
    int64_t wait0 = shim::clock_ns;
    size_t s0 = sent.size();
    shim::bus().on_call_available = [&] { shim::clock_ns += 100 * MS; if (--left <= 0) shim::deliver("/raw_grid_slp", g); };
    n->cmdLoopCallback(ros::TimerEvent());
    shim::bus().on_call_available = nullptr;
    int64_t now = shim::clock_ns, Tn = llround(T * 1e9), Cn = llround(C * 1e9);
    bool hv = false;
    int want = ref(now - last, now - start, hv, 0, Tn, Cn, Cn);
    // while waiting beyond the termination limit every heartbeat is a termination one, and there is at least one
    size_t in_wait = 0;
    for (size_t i = s0; i < sent.size(); i++) {
      bool final_ = i + 1 == sent.size() && sent[i].first == now;
      if (!final_) { in_wait++; if (sent[i].second != (int)MAV_STATE::MAV_STATE_FLIGHT_TERMINATION || sent[i].first - wait0 <= Tn) vc::fail("slp-wait", "landing planner, %s: heartbeat %d after %.1f s without data (limit %.1f)", show(h).c_str(), sent[i].second, (sent[i].first - wait0) * 1e-9, T); }
    }
    if (now - wait0 > Tn + 100 * MS && !sent.empty() && in_wait == 0) vc::fail("slp-wait-silent", "landing planner, %s: no data for %.1f s and no termination heartbeat", show(h).c_str(), (now - wait0) * 1e-9);
    bool due = sent.size() > s0 ? true : now - last_sent > 200 * MS;
    // the last heartbeat of this step: expected when none was sent for more than 0.2 s
    int64_t prev_sent = last_sent;
    for (size_t i = s0; i < sent.size(); i++) if (sent[i].first < now) prev_sent = sent[i].first;
    if (now - prev_sent > 200 * MS) {
      if (sent.empty() || sent.back().first != now) vc::fail("slp-heartbeat-missing", "landing planner, %sstep %zu: no heartbeat for %.3f s", show(h).c_str(), k, (now - prev_sent) * 1e-9);
      else if (sent.back().second != want) vc::fail("slp-status", "landing planner (limits %.1f/%.1f s), %sstep %zu: map %.3f s old, %.3f s since start: heartbeat %d, expected %d", C, T, show(h).c_str(), k, (now - last) * 1e-9, (now - start) * 1e-9, sent.back().second, want);
    }
    if (!sent.empty()) last_sent = sent.back().first;
    last = now;
    c.transitions++; c.states++;
    vc::outcome(vc::mix(vc::mix(want, 77), sent.size() - s0));
    (void)due; (void)have;
  }
  c.traces++;
  if (!n->worker_.joinable()) delete n;
}

static const double lim[3][2] = {{0.5, 15}, {0.2, 2}, {10, 14}};

int main(int argc, char** argv) {
  vc::init(argc, argv);
  auto& c = vc::ctx();
  watch();
  
  std::vector<Ev> al = alphabet();
  int depth = c.thorough ? 4 : 3;
  uint64_t item = 0;
  std::vector<Ev> h;
  std::function<void(int)> rec = [&](int d) {
    if (d == depth) { for (auto& l : lim) slp_history(h, l[0], l[1]); return; }
    for (auto& e : al) { if (d == 1 && !vc::mine(item++)) continue; h.push_back(e); rec(d + 1); h.pop_back(); }
  };
  rec(0);
  vc::sample("%d-step history %s", depth, show(std::vector<Ev>{al[0], al[7], al[29]}).c_str());
  return vc::done();
}
