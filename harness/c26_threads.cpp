// C26: the threads of the landing planner node under every schedule within the bound.
#include "vc.h"
#include "rosmt.h"
#include <safe_landing_planner/safe_landing_planner_node.hpp>
#define main slp_main
#include "safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp"
#undef main
int repo_main_waypoint_generator_node_cpp(int, char**);
using namespace avoidance;
static const double T0 = 1000.0;
struct Run { uint64_t stamp; double at; std::vector<std::array<float, 3>> pts; };
struct H { std::vector<Run> runs; int grids = 0, status = 0, setpoints = 0; double tf_from = -1, tf_to = 1e9; };
static H* h;
static double now() { return sched_now() * 1e-9 + T0; }
static sensor_msgs::PointCloud2 cloud(int id, double stamp) {
  pcl::PointCloud<pcl::PointXYZ> c;
  for (int i = 0; i < 2; i++) c.points.push_back(pcl::PointXYZ(0.1f + 0.2f * id, -0.6f + 0.5f * i, 0.5f));
  c.width = c.points.size(); c.height = 1;
  sensor_msgs::PointCloud2 m; pcl::toROSMsg(c, m); m.header.frame_id = "camera"; m.header.stamp = ros::Time(stamp);
  return m;
}
static void fill(safe_landing_planner::SLPGridMsg& g) {
  g.grid_size = 4; g.cell_size = 2;
  for (auto* l : {&g.mean.layout, &g.std_dev.layout}) { l->dim.resize(2); l->dim[0].size = l->dim[1].size = 2; }
  g.counter.layout = g.mean.layout; g.land.layout = g.mean.layout; g.mean.data.assign(4, 0.f); g.std_dev.data.assign(4, 0.f); g.counter.data.assign(4, 20); g.land.data.assign(4, 0);
}
static void body(int sc) {
  { mt::Q q; h = new H; }
  sched_focus(0);
  mt::install();
  auto& b = shim::bus();
  b.record = false;
  b.params_s["pointcloud_topics"] = "cloud";
  if (sc == 4) b.params_b["play_rosbag"] = true;
  // the camera moves, so that each cloud needs the transform of its own time; transforms are known within a time window
  shim::tf_lookup = [](const std::string&, const std::string&, const ros::Time& t, tf::StampedTransform& s) {
    sched_point("transform looked up", &h->tf_to);
    mt::Q q;
    if (now() < h->tf_from || now() > h->tf_to) return false;
    double w = t.isZero() ? now() : t.toSec();
    s.setOrigin(tf::Vector3(w - T0, 0, 2)); s.setRotation(tf::createQuaternionFromYaw(0)); s.stamp_ = ros::Time(w);
    return true;
  };
  b.on_publish = [](const shim::Pub& p) {
    if (p.topic == "grid_pointcloud") {
      auto& c = *(const pcl::PointCloud<pcl::PointXYZI>*)p.msg.get(); Run r; r.stamp = c.header.stamp; r.at = now();
      for (auto& x : c.points) r.pts.push_back({x.x, x.y, x.z});
      h->runs.push_back(r);
    }
    if (p.topic == "mavros/trajectory/generated") h->setpoints++;
    if (p.topic == "grid_slp") h->grids++;
    if (p.topic == "mavros/companion_process/status") h->status++;
  };
  std::vector<double> sent;
  auto send = [&](double stamp) { sent.push_back(stamp); mt::push("cloud", cloud(sent.size(), stamp)); };
  if (sc >= 5) {  // the programs themselves: they end when ROS shuts down, at any point
    sched_focus(sc == 5);
    static double s0; s0 = now() + 0.05;
    std::thread down([&] {
      if (sc == 5) { sched_sleep(60 * 1000000); mt::push("cloud", cloud(1, s0)); sched_sleep(55 * 1000000); }
      else {
        sched_sleep(150 * 1000000);
        safe_landing_planner::SLPGridMsg g; { mt::Q q; g.header.seq = 1; fill(g); }
        geometry_msgs::PoseStamped p; p.pose.position.z = 5; p.pose.orientation.w = 1;
        mt::push("mavros/local_position/pose", p); mt::push("grid_slp", g);
        sched_sleep(830 * 1000000);
        sched_focus(1);
        sched_sleep(10 * 1000000);
        mt::push("grid_slp", g);
        sched_sleep(9 * 1000000 + 999999);  // the program looks every second
      }
      sched_point("shutdown", &b); mt::Q q; b.ok = false;
    });
    static char arg[] = "node"; static char* argv[] = {arg, nullptr};
    if (sc == 5) slp_main(1, argv); else repo_main_waypoint_generator_node_cpp(1, argv);
    down.join();
    if (sched_live()) sched_fail("threads-left", "%d threads still run after the program ended", sched_live());
    if (h->setpoints > 2) sched_fail("setpoint-without-map", "%d setpoints were computed from two maps", h->setpoints);
    sched_outcome(vc::mix(h->runs.size(), h->setpoints));
    return;
  }
  if (sc == 0) sched_focus(1);
  SafeLandingPlannerNode* n = new SafeLandingPlannerNode(ros::NodeHandle());
  sched_atomic_range(n, sizeof *n);
  safe_landing_planner::SafeLandingPlannerNodeConfig cfg;
  { mt::Q q; cfg = n->rqt_param_config_.__getDefault__(); cfg.grid_size = 4; cfg.cell_size = 2; cfg.smoothing_size = 0; n->safe_landing_planner_->dynamicReconfigureSetParams(cfg, 0); }
  sched_name_next("worker");
  n->startNode();
  auto pose = [&](float x) { geometry_msgs::PoseStamped p; p.pose.position.x = x; p.pose.position.z = 2; p.pose.orientation.w = 1; mt::push("mavros/local_position/pose", p); };
  auto raw = [&](int seq) {
    safe_landing_planner::SLPGridMsg g; { mt::Q q; g.header.seq = seq; fill(g); }
    mt::push("/raw_grid_slp", g);
  };
  // waits until the newest cloud has been planned on
  auto wait_planned = [&](double limit, const char* what) {
    static uint64_t want; static size_t upto; want = sent.empty() ? 0 : (uint64_t)llround(sent.back() * 1e6); upto = sent.size();
    int64_t from = sched_idle();
    while (!sched_block([](void*) -> int { mt::Q q; return !h->runs.empty() && (!want || h->runs.back().stamp + 1 >= want); }, nullptr, 100000000, what))
      if (sched_idle() - from > limit * 1e9) sched_fail("stalled", "%s: %g s after the newest cloud arrived no map has been computed from it (%zu maps so far)", what, (sched_idle() - from) * 1e-9, h->runs.size());
  };
  if (sc == 0) {  // start, a first cloud and stop at once
    send(now());
  } else if (sc == 1) {  // clouds and poses; the transform of the second one is late
    pose(0); send(now() + 0.001);
    wait_planned(0.4, "first cloud");
    sched_focus(1);
    { mt::Q q; h->tf_from = now() + 0.0905; }
    send(now() + 0.002); pose(0.1f);
    wait_planned(0.4, "second cloud");
    send(now() + 0.001);
    wait_planned(0.4, "third cloud");
  } else if (sc == 2) {  // a newer cloud while the first one waits for its transform or is being transformed
    pose(0);
    { mt::Q q; h->tf_from = now() + 0.103; }
    sched_sleep(95 * 1000000);
    sched_focus(1);
    send(now() + 0.001);
    sched_sleep(7 * 1000000);
    send(now() + 0.001);
    pose(0.1f);
    wait_planned(0.4, "newest cloud");
  } else if (sc == 3) {  // the transform expires while the cloud is being processed; settings change
    pose(0);
    sched_sleep(97 * 1000000);
    sched_focus(1);
    std::thread tf([&] { sched_sleep(4 * 1000000); sched_point("transform expires", &h->tf_to); { mt::Q q; h->tf_to = now() - 1e-9; } sched_sleep(3 * 1000000); sched_point("transform known again", &h->tf_to); mt::Q q; h->tf_to = 1e9; });
    sched_sleep(4 * 1000000);
    send(now() + 0.001);
    mt::push_call([&] { auto c = cfg; c.n_points_threshold = 3; n->server_.shim_reconfigure(c); });
    wait_planned(0.4, "cloud");
    tf.join();
  } else if (sc == 4) {  // recorded maps instead of clouds
    pose(0);
    sched_sleep(95 * 1000000);
    sched_focus(1);
    raw(7);
    { mt::Q q; sent.clear(); }
    wait_planned(0.4, "recorded map");
    raw(8); pose(0.1f);
  }
  int64_t from = sched_idle();
  delete n;
  double took = (sched_idle() - from) * 1e-9;
  if (sched_live()) sched_fail("threads-left", "%d threads still run after the node is gone", sched_live());
  if (took > 0.5) sched_fail("slow-stop", "stopping took %g s: a thread slept on although it was told to stop", took);
  std::set<uint64_t> seen; uint64_t hh = mt::st().timer_calls;
  for (auto& r : h->runs) {
    hh = vc::mix(hh, r.stamp);
    if (sc == 4) continue;
    int id = -1;
    for (size_t k = 0; k < sent.size(); k++) if (std::fabs(r.stamp * 1e-6 - sent[k]) < 2e-6) id = k;
    if (id < 0) sched_fail("unknown-cloud", "a map was computed from a cloud stamped %lu which was never sent", (unsigned long)r.stamp);
    if (!seen.insert(r.stamp).second) sched_fail("consumed-twice", "the cloud stamped %lu was put into the map twice", (unsigned long)r.stamp);
    int found = 0;
    for (auto& x : r.pts) for (int i = 0; i < 2; i++) if (std::fabs(x[0] - (sent[id] - T0 + 0.1 + 0.2 * (id + 1))) < 1e-3 && std::fabs(x[1] - (-0.6 + 0.5 * i)) < 1e-3 && std::fabs(x[2] - 2.5) < 1e-3) found++;
    if (found != 2 || r.pts.size() != 2) sched_fail("wrong-transform", "map computed at %g: %d of 2 points of cloud %d are where its own transform puts them (%zu points)", r.at, found, id + 1, r.pts.size());
  }
  if (sc == 4 && h->runs.size() > 2) sched_fail("consumed-twice", "%zu maps were computed from two recorded maps", h->runs.size());
  if (h->grids != (int)h->runs.size()) sched_fail("grids", "%d maps published for %zu planned on", h->grids, h->runs.size());
  sched_outcome(hh);
}
static void report(const char* key, const char* text) { vc::fail(key, "%s", text); }
int main(int argc, char** argv) {
  if (argc > 3 && std::string(argv[1]) == "--replay") { sched_replay(body, atoi(argv[2]), argv[3]); return 0; }
  vc::init(argc, argv);
  auto& c = vc::ctx();
  const char* names[] = {"start and stop", "clouds and a late transform", "newer cloud while the first waits", "transform expires, settings change", "recorded maps", "program and shutdown", "setpoint program and shutdown"};
  int only = getenv("SCHED_SC") ? atoi(getenv("SCHED_SC")) : -1;
  for (int k = 0; k < 14; k++) {
    int sc = k / 2;
    if (only >= 0 && sc != only) continue;
    SchedOptions o; o.lifo = k & 1; o.block_cost = 1; o.must = 1;
    o.bound = getenv("SCHED_BOUND") ? atoi(getenv("SCHED_BOUND")) : c.thorough ? 5 : 3;
    o.seconds = getenv("SCHED_SECS") ? atof(getenv("SCHED_SECS")) : c.thorough ? 300 : 5;
    vc::cur("scenario %s", names[sc]);
    auto s = sched_explore(body, sc, o, report);
    c.states += s.states; c.transitions += s.events; c.traces += s.execs; c.evals += s.execs;
    for (uint64_t i = 0; i < s.outcomes; i++) vc::outcome(vc::mix(sc, i));
    if (s.full < 1) c.exhaustive = false;
    const char* pn = o.lifo ? "last woken first" : "round robin";
    vc::sample("%s, %s: %lu schedules (%lu cut where they joined an explored one), %lu states, up to %lu choices; all with up to %d deviations", names[sc], pn, s.execs, s.pruned, s.states, s.maxpoints, s.full);
    c.info[std::string("schedules: ") + names[sc] + ", " + pn] = s.execs;
    if (getenv("SCHED_SECS") || getenv("SCHED_SC")) fprintf(stderr, "%s: execs %lu pruned %lu states %lu events %lu max points %lu outcomes %lu fails %lu complete %d full %d\n", names[sc], s.execs, s.pruned, s.states, s.events, s.maxpoints, s.outcomes, s.fails, s.complete, s.full);
    if (s.fails && !c.thorough) break;
  }
  return vc::done();
}
