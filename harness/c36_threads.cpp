// C36: the threads of the global planner node under every schedule within the bound.
#include "vc.h"
#include "rosmt.h"
#include "gpref.h"
#include <global_planner/global_planner_node.h>
#define main gp_main
#include "global_planner/src/nodes/global_planner_node_main.cpp"
#undef main
using namespace global_planner;
static const double T0 = 1000.0;
struct H { std::vector<int64_t> setpoints, beats; int paths = 0, goals = 0; double tf_from = -1; int slow = 0; octomap::OcTree* newest = nullptr; bool done = false; double maxgap = 0; };
static H* h;
static double now() { return sched_now() * 1e-9 + T0; }
static geometry_msgs::PoseStamped pose(double x, double y, double z) { geometry_msgs::PoseStamped p; p.pose.position.x = x; p.pose.position.y = y; p.pose.position.z = z; p.pose.orientation.w = 1; return p; }
static void body(int sc) {
  { mt::Q q; h = new H; CELL_SCALE = 1; SPEEDNODE_RADIUS = 5; }
  sched_focus(0);
  mt::install();
  auto& b = shim::bus();
  b.record = false;
  b.params_v["pointcloud_topics"].push_back("cloud");
  shim::tf_lookup = [](const std::string&, const std::string&, const ros::Time& t, tf::StampedTransform& s) {
    sched_point("transform looked up", &h->tf_from);
    mt::Q q;
    if (now() < h->tf_from) return false;
    s.setOrigin(tf::Vector3(0, 0, 0)); s.setRotation(tf::createQuaternionFromYaw(0)); s.stamp_ = t;
    return true;
  };
  shim::octomap_decode = [](const octomap_msgs::Octomap&) -> octomap::AbstractOcTree* {
    auto* t = new octomap::OcTree(1.0);
    mt::Q q;
    h->newest = t;
    for (int x = -1; x < 4; x++) for (int z = 1; z < 5; z++) t->setNodeLogOdds(x + 0.5f, 2.5f, z + 0.5f, 3.5f);
    return t;
  };
  b.service = [](const std::string&, std::type_index, void*) { return false; };
  b.on_publish = [](const shim::Pub& p) {
    if (p.topic == "mavros/setpoint_position/local") {
      int64_t t = sched_idle();
      if (!h->setpoints.empty()) h->maxgap = std::max(h->maxgap, (t - h->setpoints.back()) * 1e-9);
      h->setpoints.push_back(t);
    }
    if (p.topic == "global_temp_path") h->paths++;
    if (p.topic == "mavros/companion_process/status") h->beats.push_back(sched_idle());
  };
  // planning takes time
  b.on_published = [](const shim::Pub& p) { if (h->slow && p.topic == "smooth_path") sched_sleep(200 * 1000000); };
  if (sc == 5) {  // the program: ends when ROS shuts down, at any point
    b.on_spin = [&b] { while (b.ok) mt::call_available(100000000); };
    std::thread down([&] {
      mt::push("mavros/local_position/pose", pose(0.5, 0.5, 3.5));
      sched_sleep(989 * 1000000); sched_focus(1); sched_sleep(10 * 1000000 + 999999);
      sched_point("shutdown", &b); mt::Q q; b.ok = false;
    });
    static char arg[] = "node"; static char* argv[] = {arg, nullptr};
    gp_main(1, argv);
    down.join();
    if (sched_live()) sched_fail("threads-left", "%d threads still run after the program ended", sched_live());
    sched_outcome(h->setpoints.size());
    return;
  }
  if (sc == 0) sched_focus(1);
  GlobalPlannerNode* n = new GlobalPlannerNode(ros::NodeHandle("~"), ros::NodeHandle(""));
  sched_atomic_range(n, sizeof *n);
  GlobalPlannerNodeConfig cfg;
  { mt::Q q; cfg = GlobalPlannerNodeConfig::__getDefault__(); cfg.max_altitude_ = 5; cfg.max_iterations_ = 12; cfg.neighbor_risk_flow_ = 0; cfg.default_node_type_ = "NodeWithoutSmooth"; cfg.use_risk_based_speedup_ = true; cfg.simplify_iterations_ = 1; }
  if (sc > 0) { mt::push_call([&] { n->server_.shim_reconfigure(cfg, ~0u); }); mt::call_available(0); }
  auto send_map = [&] { octomap_msgs::Octomap m; m.data.push_back(1); mt::push("octomap_full", m); };
  auto send_goal = [&](double x, double y) { geometry_msgs::PoseStamped g = pose(x, y, 3.5); mt::push("move_base_simple/goal", g); };
  auto send_fcu = [&](double x) { mavros_msgs::Trajectory m; m.point_valid[1] = true; m.point_2.position.x = x; m.point_2.position.y = 0.5; m.point_2.position.z = 3.5; mt::push("mavros/trajectory/desired", m); };
  auto send_cloud = [&] {
    pcl::PointCloud<pcl::PointXYZ> c; c.points.push_back(pcl::PointXYZ(2.2f, 1.2f, 3.3f)); c.width = 1; c.height = 1;
    sensor_msgs::PointCloud2 m; pcl::toROSMsg(c, m); mt::push("cloud", m);
  };
  // messages arrive from outside while the main thread serves its callbacks
  geometry_msgs::PoseStamped last = pose(0.5, 0.5, 3.5);
  double gx = NAN, gotx = NAN;
  mt::push("mavros/local_position/pose", last);
  std::thread net([&] {
    if (sc == 1) {  // maps and positions while planning
      send_map();
      sched_sleep(999 * 1000000); sched_focus(1); sched_sleep(1000000);
      send_map(); last = pose(0.7, 0.6, 3.5); mt::push("mavros/local_position/pose", last);
      sched_sleep(100 * 1000000);
    } else if (sc == 2) {  // goals and settings while planning
      send_map();
      sched_sleep(999 * 1000000); sched_focus(1); sched_sleep(1000000);
      send_goal(1.5, 0.5); gx = 1.5;
      { mt::Q q; cfg.simplify_iterations_ = 2; cfg.max_speed_ = 2; }
      mt::push_call([&] { n->server_.shim_reconfigure(cfg, ~0u); });
      send_fcu(2.5); gx = 2.5;
      sched_sleep(100 * 1000000);
    } else if (sc == 3) {  // a camera whose transform is late, seen obstacles while planning a path around the wall
      send_map(); send_goal(1.5, 4.5);
      sched_sleep(900 * 1000000);
      { mt::Q q; h->tf_from = now() + 0.0995; }
      send_cloud();
      sched_focus(1);
      sched_sleep(100 * 1000000);
      mt::push("clicked_point", geometry_msgs::PointStamped()); geometry_msgs::TwistStamped v; v.twist.linear.x = 0.5; mt::push("mavros/local_position/velocity", v);
      sched_sleep(60 * 1000000);
      send_cloud();
      sched_sleep(100 * 1000000);
    } else if (sc == 4) {  // the planner takes long: it is stopped inside of its work
      send_map();
      sched_sleep(500 * 1000000);
      { mt::Q q; h->slow = 1; }
      sched_sleep(499 * 1000000); sched_focus(1); sched_sleep(1000000);
      send_goal(1.5, 0.5); gx = 1.5;
      sched_sleep(50 * 1000000);
      last = pose(0.6, 0.5, 3.5); mt::push("mavros/local_position/pose", last);
      sched_sleep(600 * 1000000);
    }
    sched_point("all sent", &h->done); mt::Q q; h->done = true;
  });
  for (;;) {
    bool end; { mt::Q q; end = h->done && mt::st().q.empty(); }
    if (end) break;
    mt::call_available(100000000);
  }
  net.join();
  int64_t from = sched_idle();
  octomap::OcTree* tree = n->global_planner_.octree_;
  // every message has been handled: newest position, and the newest goal unless the planner gave it up
  double px, wantx; { mt::Q q; px = n->last_pos_.pose.position.x; wantx = last.pose.position.x; gotx = n->global_planner_.goal_pos_.xPos(); }
  size_t seen; { mt::Q q; seen = n->global_planner_.occupied_.size(); }
  if (sc == 3 && seen == 0) sched_fail("cloud-lost", "no obstacle of the camera is known");
  if (px != wantx) sched_fail("position-lost", "the node is at %g, the last position was %g", px, wantx);
  if (sc > 0 && gx == gx && gotx != gx) sched_fail("goal-lost", "the goal is at %g, the newest one was %g", gotx, gx);
  delete n;
  double took = (sched_idle() - from) * 1e-9;
  if (sched_live()) sched_fail("threads-left", "%d threads still run after the node is gone", sched_live());
  if (took > 0.7) sched_fail("slow-stop", "stopping took %g s", took);
  if (sc > 0 && tree != h->newest) sched_fail("map-lost", "the map in use is not the newest one");
  if (sc > 0 && h->maxgap > 0.102) sched_fail("setpoint-gap", "%g s between two setpoints: the command loop waited for the planner", h->maxgap);
  sched_outcome(vc::mix(h->setpoints.size(), h->paths));
}
static void report(const char* key, const char* text) { vc::fail(key, "%s", text); }
int main(int argc, char** argv) {
  if (!getenv("SCHED_SC") && !freopen("/dev/null", "w", stdout)) return 9;
  if (argc > 3 && std::string(argv[1]) == "--replay") { sched_replay(body, atoi(argv[2]), argv[3]); return 0; }
  vc::init(argc, argv);
  auto& c = vc::ctx();
  const char* names[] = {"start and stop", "maps and positions while planning", "goals and settings while planning", "late camera transform", "long planning", "program and shutdown"};
  int only = getenv("SCHED_SC") ? atoi(getenv("SCHED_SC")) : -1;
  for (int k = 0; k < 12; k++) {
    int sc = k / 2;
    if (only >= 0 && sc != only) continue;
    SchedOptions o; o.lifo = k & 1; o.block_cost = 1; o.must = 1;
    o.bound = getenv("SCHED_BOUND") ? atoi(getenv("SCHED_BOUND")) : c.thorough ? 5 : 3;
    o.seconds = getenv("SCHED_SECS") ? atof(getenv("SCHED_SECS")) : c.thorough ? 300 : 5;
    vc::cur("scenario %s", names[sc]);
    auto s = sched_explore(body, sc, o, report);
    c.states += s.states; c.transitions += s.events; c.traces += s.execs; c.evals += s.execs;
    for (uint64_t i = 0; i < s.outcomes; i++) vc::outcome(vc::mix(sc, i));
    if (s.full < 1) c.exhaustive = false;
    const char* pn = o.lifo ? "last woken first" : "round robin";
    vc::sample("%s, %s: %lu schedules (%lu cut where they joined an explored one), %lu states, up to %lu choices; all with up to %d deviations", names[sc], pn, s.execs, s.pruned, s.states, s.maxpoints, s.full);
    c.info[std::string("schedules: ") + names[sc] + ", " + pn] = s.execs;
    if (getenv("SCHED_SECS") || getenv("SCHED_SC")) fprintf(stderr, "%s: execs %lu pruned %lu states %lu events %lu max points %lu outcomes %lu fails %lu complete %d full %d\n", names[sc], s.execs, s.pruned, s.states, s.events, s.maxpoints, s.outcomes, s.fails, s.complete, s.full);
    if (s.fails && !c.thorough) break;
  }
  return vc::done();
}
