// C30: obstacle points of every camera, and maps, as they arrive at the global planner node: clouds over an alphabet of points, transforms and cell sizes.
#include "vc.h"
#include "gpref.h"
#include <global_planner/global_planner_node.h>
using namespace gr;
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
static octomap::OcTree *A, *B;
static pcl::PointCloud<pcl::PointXYZ> world(const pcl::PointCloud<pcl::PointXYZ>& in, double x, double y, double z, double yaw) { pcl::PointCloud<pcl::PointXYZ> o; for (auto& p : in) o.push_back(pcl::PointXYZ(std::cos(yaw) * p.x - std::sin(yaw) * p.y + x, std::sin(yaw) * p.x + std::cos(yaw) * p.y + y, p.z + z)); return o; }
int main(int argc, char** argv) {
  vc::init(argc, argv); if (!freopen("/dev/null", "w", stdout)) return 9;
  auto& c = vc::ctx(); uint64_t it = 0; std::vector<Vox> a{{1.3, 2.3, 3.4, 3.5f}, {4.6, 2.2, 3.3, -2.0f}, {0.2, 0.3, 2.2, 0.4f}}, b{{4.6, 2.2, 3.3, 3.5f}}; A = tree(0.5, a); B = tree(0.5, b);
  const float N = NAN, I = INFINITY, PT[][3] = {{1.3f, 0.3f, 0.4f}, {-4.6f, 2.2f, 3.1f}, {N, N, N}, {2.2f, N, 0.1f}, {2.2f, 0.1f, N}, {N, 0.4f, 0.2f}, {I, 0.1f, 0.2f}, {0.3f, -I, 0.2f}, {0.3f, 0.4f, I}, {0.45f, -0.45f, 7.3f}, {300.3f, -200.4f, 20.3f}, {-0.3f, -0.3f, -3.3f}};
  const int NP = 12; const double TF[3][4] = {{0, 0, 0, 0}, {3.17, -2.21, 1.13, M_PI / 2}, {-7.3, 11.6, 4.4, 2.2}};
  // events: clouds of up to two points seen by one of two cameras, maps, a missing transform
  for (int cs = 0; cs < 3; cs++) for (int tf = 0; tf < 3; tf++) for (int cam = 0; cam < 2; cam++) for (int p = 0; p < NP; p++) for (int q = -1; q < NP; q++) for (int r = -1; r < (c.thorough ? NP : 4); r++) {
    if (!vc::mine(it++)) continue;
    auto& bus = shim::bus(); bus.clear(); vc::set_time(50); CELL_SCALE = 1; bus.params_v["pointcloud_topics"] = {"first", "second"};
    char nm[200]; snprintf(nm, sizeof nm, "cell size %d transform %d camera %d points %d %d then %d", cs, tf, cam, p, q, r); vc::cur("%s", nm); int phase = 0;
    shim::octomap_decode = [&](const octomap_msgs::Octomap&) -> octomap::AbstractOcTree* { return phase == 2 ? nullptr : new octomap::OcTree(phase ? *B : *A); };
    GlobalPlannerNode n{ros::NodeHandle("~"), ros::NodeHandle("")}; auto cfg = GlobalPlannerNodeConfig::__getDefault__(); cfg.CELL_SCALE = cs == 0 ? 1.0 : cs == 1 ? 0.5 : 2.0; n.server_.shim_reconfigure(cfg, ~0u);
    RefMap m; m.scale = cfg.CELL_SCALE; m.flow = cfg.neighbor_risk_flow_; m.penalty = cfg.explore_penalty_; n.global_planner_.setRobotRadius(m.robot);
    auto see = [&](std::vector<int> pts, bool ok) {
      shim::tf_lookup = [&, ok](const std::string& to, const std::string& from, const ros::Time&, tf::StampedTransform& t) { if (!ok || to != "local_origin" || from != "camera_link") return false; t.setOrigin(tf::Vector3(TF[tf][0], TF[tf][1], TF[tf][2])); t.setRotation(tf::createQuaternionFromYaw(TF[tf][3])); return true; };
      pcl::PointCloud<pcl::PointXYZ> cl, fin; for (int i : pts) { pcl::PointXYZ x(PT[i][0], PT[i][1], PT[i][2]); cl.push_back(x); if (std::isfinite(x.x) && std::isfinite(x.y) && std::isfinite(x.z)) fin.push_back(x); } cl.is_dense = false; cl.header.frame_id = "camera_link"; sensor_msgs::PointCloud2 msg; pcl::toROSMsg(cl, msg); shim::deliver(cam ? "second" : "first", msg); c.transitions++;
      if (ok) for (auto& x : world(fin, TF[tf][0], TF[tf][1], TF[tf][2], TF[tf][3])) m.seen.insert({(int)std::floor(x.x / m.scale), (int)std::floor(x.y / m.scale), (int)std::floor(x.z / m.scale)});
      std::set<I3> got; for (auto& k : n.global_planner_.occupied_) got.insert(ix(k)); CK(got == m.seen, "seen_obstacles", "%s: %zu cells with obstacles, expected %zu", nm, got.size(), m.seen.size());
    };
    auto map = [&](int k) { phase = k; vc::add_ms(210); shim::deliver("octomap_full", octomap_msgs::Octomap()); if (k < 2) m.set(0.5, k ? b : a); m.cache.clear(); c.transitions++; };
    auto judge = [&] { std::vector<I3> Q{{1, 2, 3}, {2, 4, 6}, {0, 1, 1}, {4, 2, 3}, {9, 4, 6}, {2, 1, 1}, {0, 0, 2}, {0, 0, 4}}; for (auto& k : m.seen) if (k[2] < 60) Q.push_back(k); for (auto& k : Q) { double x = n.global_planner_.getRisk(mk(k)), w = m.risk(k); vc::outcome(vc::mix(vc::hashf(x), k[2])); CK(vc::near(x, w, 1e-9), "risk_after_update", "%s: risk of (%d %d %d) is %g, expected %g", nm, k[0], k[1], k[2], x, w); } };
    std::vector<int> pts{p}; if (q >= 0) pts.push_back(q);
    see(pts, true); map(0); judge(); if (r >= 0) { see({r}, false); see({(r * 5 + p) % NP}, true); } map(1); judge(); map(2); judge();
    c.states++; delete n.global_planner_.octree_;
  }
  vc::sample("clouds of one or two of 12 points (finite, partly or completely undefined, infinite) under 3 transforms, 2 cameras, 3 cell sizes, between map updates");
  return vc::done();
}
