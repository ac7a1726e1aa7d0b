// C20: the threads of the local planner nodelet under every schedule within the preemption bound.
#include "vc.h"
#include "rosmt.h"
#include <local_planner/local_planner_nodelet.h>
#include <local_planner/local_planner.h>
#include <local_planner/waypoint_generator.h>
using namespace avoidance;
static const double T0 = 1000.0;
struct Run { uint64_t stamp; std::vector<std::array<float, 3>> fresh; double at; };
struct H {
  std::vector<Run> runs; int setpoints = 0, status = 0; bool tf = true; double tf_lag = 0;
};
static H* h;
static double now() { return sched_now() * 1e-9 + T0; }
// the pose of the camera moves, so that each cloud needs the transform of its own time
static tf::StampedTransform pose_at(double t, int cam) { tf::StampedTransform s; s.setOrigin(tf::Vector3(10 * (t - T0), cam, 2)); s.setRotation(tf::createQuaternionFromYaw(0)); s.stamp_ = ros::Time(t); return s; }
static sensor_msgs::PointCloud2 cloud(int id, int cam, double stamp) {
  pcl::PointCloud<pcl::PointXYZ> c;
  for (int i = 0; i < 2; i++) c.points.push_back(pcl::PointXYZ(4 + id, -1.5f + cam + 3 * i, 0.5f));
  c.width = c.points.size(); c.height = 1;
  sensor_msgs::PointCloud2 m; pcl::toROSMsg(c, m); m.header.frame_id = "camera" + std::to_string(cam); m.header.stamp = ros::Time(stamp);
  return m;
}
static void body(int sc) {
  int cams = sc == 2 || sc == 4 ? 2 : 1;
  { mt::Q q; h = new H; }
  sched_focus(0);
  mt::install();
  auto& b = shim::bus();
  b.record = false;
  for (int i = 0; i < cams; i++) b.params_v["pointcloud_topics"].push_back("cloud" + std::to_string(i));
  shim::tf_lookup = [](const std::string& to, const std::string& from, const ros::Time& t, tf::StampedTransform& s) {
    mt::Q q;
    if (!h->tf) return false;
    double w = t.isZero() ? now() : t.toSec();
    int cam = from.back() - '0';
    s = pose_at(w, cam);
    if (to == "fcu") { s.setOrigin(tf::Vector3(0, 0, 0)); }
    return true;
  };
  b.on_publish = [](const shim::Pub& p) {
    if (p.topic == "local_pointcloud") {
      auto& c = *(const pcl::PointCloud<pcl::PointXYZI>*)p.msg.get(); Run r; r.stamp = c.header.stamp; r.at = now();
      for (auto& x : c.points) if (x.intensity == 0) r.fresh.push_back({x.x, x.y, x.z});
      h->runs.push_back(r);
    }
    if (p.topic == "mavros/trajectory/generated") h->setpoints++;
    if (p.topic == "mavros/companion_process/status") h->status++;
  };
  b.service = [](const std::string&, std::type_index, void*) { return false; };
  if (sc == 0) sched_focus(1);
  LocalPlannerNodelet* n = new LocalPlannerNodelet();
  sched_atomic_range(n, sizeof *n);
  sched_name_next(cams == 1 ? "camera0" : nullptr);
  n->init("node");
  { mt::Q q; auto c = n->rqt_param_config_.__getDefault__(); c.n_expanded_nodes_ = 2; c.children_per_node_ = 2; c.goal_z_param = n->local_planner_->getGoal().z(); n->local_planner_->dynamicReconfigureSetParams(c, 0); }
  auto pose = [&](float x) { geometry_msgs::PoseStamped p; p.pose.position.x = x; p.pose.position.z = 2; p.pose.orientation.w = 1; mt::push("mavros/local_position/pose", p); };
  auto spin = [&] { mt::call_available(0); };
  std::vector<double> sent[2];
  auto send = [&](int cam, double stamp) { sent[cam].push_back(stamp); mt::push("cloud" + std::to_string(cam), cloud(sent[cam].size(), cam, stamp)); };
  auto wait_runs = [&](size_t k, double limit, const char* what) {
    static size_t want; want = k;
    int64_t from = sched_idle();
    while (!sched_block([](void*) -> int { mt::Q q; return h->runs.size() >= want; }, nullptr, 200000000, what))
      if (sched_idle() - from > limit * 1e9) sched_fail("stalled", "%s: %zu planner runs after %g s although %zu were due: a thread sleeps on while its work waits", what, h->runs.size(), (sched_idle() - from) * 1e-9, k);
  };
  // the frames are known to the node and their transforms arrive; the clouds which told it are older than any transform
  auto warm = [&] { for (int i = 0; i < cams; i++) mt::push("cloud" + std::to_string(i), cloud(9, i, now() - 1)); spin(); };
  if (sc == 0) {  // start, a first cloud and stop at once
    warm();
  } else if (sc == 1) {  // a cloud while the command loop begins, position arriving, stop at any point of it
    pose(0); spin();
    warm();
    sched_sleep(91 * 1000000);
    sched_focus(1);
    send(0, now() + 0.007); spin(); pose(0.1f); spin();
    wait_runs(1, 0.4, "first cloud");
  } else if (sc == 2) {  // both cameras at once
    pose(0); spin();
    warm();
    sched_sleep(11 * 1000000);
    sched_focus(1);
    send(0, now() + 0.002); send(1, now() + 0.002); spin();
    wait_runs(1, 0.4, "first clouds");
  } else if (sc == 3) {  // reconfiguration, goals, state and stop while the planner works
    pose(0); spin();
    warm();
    sched_sleep(91 * 1000000);
    send(0, now() + 0.004); spin();
    sched_focus(1);
    std::thread man([&] { auto c = n->rqt_param_config_.__getDefault__(); c.smoothing_speed_xy_ = 3; c.goal_z_param = 4; c.n_expanded_nodes_ = 2; c.children_per_node_ = 2; n->server_->shim_reconfigure(c); });
    visualization_msgs::MarkerArray g; g.markers.resize(1); g.markers[0].pose.position.x = 20; mt::push("input/goal_position", g);
    mavros_msgs::State s; s.armed = true; s.mode = "AUTO.MISSION"; mt::push("mavros/state", s);
    pose(0.2f); spin();
    man.join();
    wait_runs(1, 0.4, "cloud during reconfiguration");
  } else if (sc == 4) {  // the next clouds of two cameras while the planner still works on the ones before
    pose(0); spin();
    warm();
    sched_sleep(21 * 1000000);
    send(0, now() + 0.002); send(1, now() + 0.002); spin();
    wait_runs(1, 0.4, "first clouds");
    sched_focus(1);
    send(1, now() + 0.002); spin();
    send(0, now() + 0.002); spin();
    wait_runs(2, 0.5, "second clouds");
  }
  int64_t from = sched_idle();
  delete n;
  double took = (sched_idle() - from) * 1e-9;
  if (sched_live()) sched_fail("threads-left", "%d threads still run after the nodelet is gone", sched_live());
  if (took > 1.0) sched_fail("slow-stop", "stopping took %g s: a thread slept on although it was told to stop", took);
  // hand-offs
  std::set<uint64_t> seen; uint64_t hh = h->runs.size();
  for (auto& r : h->runs) {
    if (!seen.insert(r.stamp).second) sched_fail("consumed-twice", "the cloud stamped %lu was planned on twice", (unsigned long)r.stamp);
    hh = vc::mix(hh, r.stamp);
    for (int cam = 0; cam < cams; cam++) {
      int id = -1;
      if (cam == 0) { for (size_t k = 0; k < sent[0].size(); k++) if (std::fabs(r.stamp * 1e-6 - sent[0][k]) < 1e-5) id = k; if (id < 0) sched_fail("unknown-cloud", "the planner ran on a cloud stamped %lu which was never sent", (unsigned long)r.stamp); }
      int found = 0;
      for (auto& x : r.fresh) for (size_t k = 0; k < sent[cam].size(); k++) {
        if (cam == 0 && (int)k != id) continue;
        double ox = 10 * (sent[cam][k] - T0) + 4 + (k + 1);
        for (int i = 0; i < 2; i++) if (std::fabs(x[0] - ox) < 2e-3 && std::fabs(x[1] - (cam - 1.5 + cam + 3 * i)) < 1e-3 && std::fabs(x[2] - 2.5) < 1e-3) found++;
      }
      if (found != 2) sched_fail("wrong-transform", "planner run at %g: of the cloud of camera %d %d of 2 points are where its own transform puts them", r.at, cam, found);
    }
  }
  sched_outcome(hh);
}
static void report(const char* key, const char* text) { vc::fail(key, "%s", text); }
int main(int argc, char** argv) {
  if (argc > 3 && std::string(argv[1]) == "--replay") { sched_replay(body, atoi(argv[2]), argv[3]); return 0; }
  vc::init(argc, argv);
  auto& c = vc::ctx();
  const char* names[] = {"start and stop", "cloud, position and command loop", "two cameras", "reconfiguration and goals", "clouds while planning"};
  double secs = getenv("SCHED_SECS") ? atof(getenv("SCHED_SECS")) : c.thorough ? 600 : 60;
  int only = getenv("SCHED_SC") ? atoi(getenv("SCHED_SC")) : -1;
  // both default orders: within one deviation completely, further within the time
  const double quick[2][5] = {{16, 5, 7, 4, 22}, {12, 4, 7, 4, 12}};
  for (int k = 0; k < 10; k++) {
    int sc = k / 2;
    if (only >= 0 && sc != only) continue;
    SchedOptions o; o.lifo = k & 1; o.block_cost = 1; o.must = 1;
    o.bound = getenv("SCHED_BOUND") ? atoi(getenv("SCHED_BOUND")) : c.thorough ? 3 : 2;
    o.seconds = getenv("SCHED_SECS") || c.thorough ? secs : quick[k & 1][sc];
    vc::cur("scenario %s", names[sc]);
    auto s = sched_explore(body, sc, o, report);
    c.states += s.states; c.transitions += s.events; c.traces += s.execs; c.evals += s.execs;
    for (uint64_t i = 0; i < s.outcomes; i++) vc::outcome(vc::mix(sc, i));
    if (s.full < 1) c.exhaustive = false;
    const char* pn = o.lifo ? "last woken first" : "round robin";
    vc::sample("%s, %s: %lu schedules (%lu cut where they joined an explored one), %lu states, up to %lu choices; all with up to %d deviations", names[sc], pn, s.execs, s.pruned, s.states, s.maxpoints, s.full);
    c.info[std::string("schedules: ") + names[sc] + ", " + pn] = s.execs;
    if (getenv("SCHED_SECS") || getenv("SCHED_SC")) fprintf(stderr, "%s: execs %lu pruned %lu states %lu events %lu max points %lu outcomes %lu fails %lu complete %d full %d\n", names[sc], s.execs, s.pruned, s.states, s.events, s.maxpoints, s.outcomes, s.fails, s.complete, s.full);
    if (s.fails && !c.thorough) break;
  }
  return vc::done();
}
