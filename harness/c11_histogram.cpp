// C11: polar obstacle map, its elevation-compressed form and the obstacle-distance message vs the cloud they are built from.
#include "vc.h"
#include <local_planner/local_planner.h>
#include <local_planner/planner_functions.h>
using namespace avoidance;
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
static double wrap(double a) { return a - 360 * std::floor(a / 360 + 0.5); }
struct Pt { double az, el, r; };
typedef std::vector<Pt> Scene;
static std::string show(const Scene& s) { std::string o; char b[64]; for (auto& p : s) { snprintf(b, sizeof b, "(az %g el %g r %g)", p.az, p.el, p.r); o += b; } return o; }
static pcl::PointCloud<pcl::PointXYZI> cloud(const Scene& s, const Eigen::Vector3f& pos) {
  pcl::PointCloud<pcl::PointXYZI> r;
  for (auto& p : s) { double a = p.az * M_PI / 180, e = p.el * M_PI / 180; pcl::PointXYZI q; q.x = pos.x() + p.r * cos(e) * sin(a); q.y = pos.y() + p.r * cos(e) * cos(a); q.z = pos.z() + p.r * sin(e); q.intensity = 0; r.push_back(q); }
  return r;
}
struct Ref { double d[GRID_LENGTH_E][GRID_LENGTH_Z]; };
static void ref(const Scene& s, Ref& t) {
  static int n[GRID_LENGTH_E][GRID_LENGTH_Z]; memset(n, 0, sizeof n); memset(&t, 0, sizeof t);
  for (auto& p : s) { int e = (int)std::floor((p.el + 90) / ALPHA_RES), z = (int)std::floor((wrap(p.az) + 180) / ALPHA_RES); t.d[e][z] += p.r; n[e][z]++; }
  for (int e = 0; e < GRID_LENGTH_E; e++) for (int z = 0; z < GRID_LENGTH_Z; z++) if (n[e][z]) t.d[e][z] /= n[e][z];
}
// nearest obstacle at flight level per azimuth: rows within 10 degrees of the horizon, cell centre within 1 m of the vehicle's height; -1 not judged
static void flat(const Ref& t, double* out) {
  for (int z = 0; z < GRID_LENGTH_Z; z++) { out[z] = 0;
    for (int e = (int)std::floor(80. / ALPHA_RES); e <= (int)std::floor(100. / ALPHA_RES); e++) if (t.d[e][z] > 0) {
      double h = std::fabs(std::sin((e * ALPHA_RES - 90 + ALPHA_RES / 2) * M_PI / 180) * t.d[e][z]);
      if (std::fabs(h - 1) < 1e-3) { out[z] = -1; break; }
      if (h < 1 && (out[z] == 0 || t.d[e][z] < out[z])) out[z] = t.d[e][z];
    } }
}
static void maps(const Scene& s, const Eigen::Vector3f& pos) {
  auto& c = vc::ctx();
  Ref t; ref(s, t);
  vc::cur("points %s from (%g %g %g)", show(s).c_str(), pos.x(), pos.y(), pos.z());
  auto cl = cloud(s, pos);
  Histogram h(ALPHA_RES), f(ALPHA_RES);
  generateNewHistogram(h, cl, pos);
  for (int e = 0; e < GRID_LENGTH_E; e++) for (int z = 0; z < GRID_LENGTH_Z; z++) CK(std::fabs(h.get_dist(e, z) - t.d[e][z]) < 2e-3, "cell", "points %s from (%g %g %g): cell (%d,%d) holds %g, expected %g", show(s).c_str(), pos.x(), pos.y(), pos.z(), e, z, h.get_dist(e, z), t.d[e][z]);
  compressHistogramElevation(f, h, pos);
  double w[GRID_LENGTH_Z]; flat(t, w);
  for (int z = 0; z < GRID_LENGTH_Z; z++) if (w[z] >= 0) CK(std::fabs(f.get_dist(0, z) - w[z]) < 2e-3, "compressed", "points %s from (%g %g %g): compressed azimuth %d holds %g, expected %g", show(s).c_str(), pos.x(), pos.y(), pos.z(), z, f.get_dist(0, z), w[z]);
  c.states++; c.transitions += 2; c.traces++;
  vc::outcome(vc::mix(s.size(), vc::hashf(std::round(10 * (w[30] + w[0] * 7 + w[31] * 3)))));
}
// the message through the planner itself
static void message(LocalPlanner& lp, const Scene& s, const Eigen::Vector3f& pos, double yaw, const std::vector<FOV>& fov, float minr, float maxr) {
  auto& c = vc::ctx();
  vc::cur("points %s, vehicle yaw %g, %zu cameras", show(s).c_str(), yaw, fov.size());
  Eigen::Quaternionf q(Eigen::AngleAxisf(yaw * M_PI / 180, Eigen::Vector3f::UnitZ()));
  lp.setState(pos, Eigen::Vector3f(0, 0, 0), q);
  pcl::PointCloud<pcl::PointXYZ> in; for (auto& p : cloud(s, pos)) in.push_back(pcl::PointXYZ(p.x, p.y, p.z));
  lp.original_cloud_vector_ = {in};
  shim::clock_ns += 1000000000LL;
  lp.runPlanner();
  sensor_msgs::LaserScan m; lp.getObstacleDistanceData(m);
  Ref t; ref(s, t); double w[GRID_LENGTH_Z]; flat(t, w);
  char S[400]; snprintf(S, sizeof S, "points %s, vehicle yaw %g, camera yaw %g opening %g", show(s).c_str(), yaw, fov[0].yaw_deg, fov[0].h_fov_deg);
  CK(m.ranges.size() == GRID_LENGTH_Z && vc::near(m.angle_increment, ALPHA_RES * M_PI / 180, 1e-5) && vc::near(m.range_min, minr) && vc::near(m.range_max, maxr) && vc::near(m.angle_min, 0), "message-layout", "%s: %zu sectors of %g rad, range %g..%g, first at %g", S, m.ranges.size(), m.angle_increment, m.range_min, m.range_max, m.angle_min);
  for (int i = 0; i < GRID_LENGTH_Z && m.ranges.size() == GRID_LENGTH_Z; i++) {
    double az = i * ALPHA_RES;  // sector i covers [az, az+6) clockwise from local north
    int z = ((int)std::floor((wrap(az + 0.5) + 180) / ALPHA_RES));
    int seen = 0; for (auto& f : fov) for (int k = 0; k < 2; k++) { double off = std::fabs(wrap(90 - (az + k * ALPHA_RES) - yaw - f.yaw_deg)); if (std::fabs(off - f.h_fov_deg / 2) < 0.02) seen = seen == 1 ? 1 : -1; else if (off < f.h_fov_deg / 2) seen = 1; }
    if (seen < 0) continue;
    float g = m.ranges[i];
    if (!seen) CK(std::isnan(g), "message-unseen", "%s: sector %d is outside the field of view but carries %g", S, i, g);
    else if (w[z] > minr + 1e-3) CK(std::fabs(g - w[z]) < 5e-3, "message-distance", "%s: sector %d carries %g, expected %g", S, i, g, w[z]);
    else if (w[z] >= 0 && w[z] < minr - 1e-3) CK(g > maxr, "message-free", "%s: free sector %d carries %g", S, i, g);
  }
  c.states++; c.transitions++; c.traces++;
  vc::outcome(vc::mix(777, vc::hashf(std::round(yaw + w[30] * 1000))));
}
int main(int argc, char** argv) {
  vc::init(argc, argv);
  auto& c = vc::ctx();
  uint64_t item = 0;
  std::vector<double> EL = {-88.5, -61, -13.2, -10.7, -7, -3.4, -0.9, 0.8, 4.1, 6.5, 9.2, 11, 13, 45, 88.7};
  std::vector<double> RD = {0.7, 2.6, 6.2, 11.3};
  const Eigen::Vector3f POS[] = {{0, 0, 0}, {3.5f, -8.25f, 12.f}, {-40, 25, 2.5f}};
  for (auto& pos : POS) for (double az = -179; az < 180; az += 2) { if (!vc::mine(item++)) continue; for (double el = -89.5; el < 90; el += 2) for (double r : RD) maps({{az, el, r}}, pos); }
  std::vector<Pt> L; for (double az : {-178.7, -2.9, 0.4, 2.2, 91.0, 178.1}) for (double el : EL) for (double r : RD) L.push_back({az, el, r});
  for (size_t i = 0; i < L.size(); i++) { if (!vc::mine(item++)) continue;
    for (size_t j = 0; j < L.size(); j++) maps({L[i], L[j]}, POS[(i + j) % 3]);
    for (size_t j = i % 5; j < L.size(); j += c.thorough ? 3 : 9) for (size_t k = j % 7; k < L.size(); k += 7) { maps({L[i], L[j], L[k]}, POS[i % 3]); } }
  { Scene all; for (double az = -178.93; az < 180; az += 5.3) for (double el = -88.13; el < 90; el += 4.7) all.push_back({az, el, 1 + std::fmod(std::fabs(az * 7 + el * 3), 12)}); if (vc::mine(item++)) maps(all, POS[1]); if (vc::mine(item++)) maps({}, POS[1]); }
  // messages: every heading, camera layout and single obstacle sector, then pairs
  std::vector<std::vector<FOV>> F = {{FOV(0, 0, 61, 50)}, {FOV(0, 0, 61, 50), FOV(172, 0, 91, 50)}, {FOV(-95, 0, 121, 50)}, {FOV(0, 0, 360, 60)}};
  for (size_t f = 0; f < F.size(); f++) {
  LocalPlanner lp;
  avoidance::LocalPlannerNodeConfig cf = avoidance::LocalPlannerNodeConfig::__getDefault__(); cf.min_sensor_range_ = 0.9; cf.max_sensor_range_ = 10.0; cf.min_num_points_per_cell_ = 1; cf.n_expanded_nodes_ = 1; cf.children_per_node_ = 1; cf.max_point_age_s_ = 0;  // nothing is remembered
 
  lp.setDefaultPx4Parameters();
  lp.dynamicReconfigureSetParams(cf, 1);
  shim::clock_ns = 100000000000LL;
  lp.setGoal(Eigen::Vector3f(30, 4, 5)); lp.setPreviousGoal(Eigen::Vector3f(0, 0, 5));
  for (size_t q = 0; q < F[f].size(); q++) lp.setFOV(q, F[f][q]);
    for (double yaw = -180; yaw < 180; yaw += 9.7) { if (!vc::mine(item++)) continue;
      for (int i = 0; i < 60; i++) message(lp, {{wrap(i * 6 + 2.5), 0.8 * (i % 3 - 1), 3.3 + 0.1 * i}}, POS[i % 3], yaw, F[f], 0.9f, 10.f);
      for (int i = 0; i < 60; i += 7) for (int j = 0; j < 60; j += 5) for (double r : {0.95, 7.0}) message(lp, {{wrap(i * 6 + 1.5), 1, 5}, {wrap(j * 6 + 4.4), -4, r}, {wrap(j * 6 + 3), 22, 2}}, POS[j % 3], yaw, F[f], 0.9f, 10.f);
      message(lp, {}, POS[1], yaw, F[f], 0.9f, 10.f); } }
  vc::sample("points %s", show({L[3], L[40]}).c_str());
  return vc::done();
}
