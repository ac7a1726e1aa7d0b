// C10: working cloud of the local planner: every sequence of up to three clouds vs a per-direction reference.
#include "vc.h"
#include <local_planner/planner_functions.h>
using namespace avoidance;
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
typedef std::array<float, 3> P3;
struct Old { P3 p; float age; };
static double wrap(double a) { return a - 360 * std::floor(a / 360 + 0.5); }
struct Cfg { std::vector<FOV> fov; float minr, maxr, maxage, dt; int support; int pose; bool two; };
struct Pose { double x, y, z, yaw, pitch; };
static Pose poses(int set, int step) {
  static const Pose T[4][3] = {{{0, 0, 0, 0, 0}, {0, 0, 0, 0, 0}, {0, 0, 0, 0, 0}}, {{0, 0, 0, 10, 0}, {0.6, -0.4, 0.1, 75, 5}, {1.1, -0.9, 0.15, 170, -8}}, {{-0.3, 0.2, 0, -150, 10}, {-0.3, 0.2, 0, 160, -4}, {0.4, 0.1, -0.2, 95, 0}}, {{0, 0, 0, 0, 0}, {0, 0, 0, 180, 0}, {0, 0, 0, 0, 0}}};
  return T[set][step];
}
static const float I = INFINITY, N = NAN;
// around the origin: pairs in one 2-degree cell, min/max range, edges of the view, wrap, above and below, invalid
static const std::vector<P3> A = {{5.03f, 0.31f, 0.22f}, {5.53f, 0.342f, 0.243f}, {5.13f, 0.318f, 0.226f}, {0.31f, 0.12f, 0.02f}, {9.7f, 1.3f, 0.4f}, {11.4f, 0.9f, -0.3f}, {-4.3f, 0.21f, 0.11f}, {-4.2f, -0.35f, 0.07f}, {3.03f, 2.61f, -0.31f}, {1.43f, -3.9f, 1.03f}, {0.5f, 0.31f, 6.1f}, {N, 2, 3}, {2, I, 0}, {3, 1, -I}};
static std::string show(const std::vector<std::vector<int>>& h) { std::string s; char b[64]; for (auto& cl : h) { s += "{"; for (int i : cl) { snprintf(b, sizeof b, "(%g %g %g)", A[i][0], A[i][1], A[i][2]); s += b; } s += "} "; } return s; }
static std::string show(const Cfg& g) { char b[300]; snprintf(b, sizeof b, "cameras %zu (first yaw %g h %g v %g) range %g..%g max age %g dt %g support %d pose set %d%s", g.fov.size(), g.fov[0].yaw_deg, g.fov[0].h_fov_deg, g.fov[0].v_fov_deg, g.minr, g.maxr, g.maxage, g.dt, g.support, g.pose, g.two ? ", two clouds" : ""); return b; }
// direction cell of 2 degrees; ok=false when too close to a border to be judged
static int cell(const P3& p, const Pose& v, bool& ok, double& r, double& az, double& el) {
  double dx = p[0] - v.x, dy = p[1] - v.y, dz = p[2] - v.z; r = std::sqrt(dx * dx + dy * dy + dz * dz);
  az = std::atan2(dx, dy) * 180 / M_PI; el = std::atan2(dz, std::hypot(dx, dy)) * 180 / M_PI;
  double a = (az + 180) / 2, e = (el + 90) / 2;
  if (std::fabs(a - std::round(a)) < 2e-4 || std::fabs(e - std::round(e)) < 2e-4) ok = false;
  return (int)std::floor(e) * 1000 + (int)std::floor(a);
}
static int seen(const Cfg& g, double az, double el, const Pose& v) {
  double z = wrap(90 - az - v.yaw), e = -el - v.pitch; int r = 0;
  if (e > 90 || e < -90) return -1;
  for (auto& f : g.fov) { double m = std::min(f.h_fov_deg / 2 - std::fabs(wrap(z - f.yaw_deg)), f.v_fov_deg / 2 - std::fabs(e - f.pitch_deg)); if (std::fabs(m) < 2e-3) r = -1; else if (m > 0) return 1; }
  return r;
}
static bool is(const P3& a, const pcl::PointXYZI& b) { return a[0] == b.x && a[1] == b.y && a[2] == b.z; }
// returns false when the case cannot be judged (points on borders)
static bool step(const Cfg& g, int k, const std::vector<int>& in, pcl::PointCloud<pcl::PointXYZI>& work, const std::vector<std::vector<int>>& hist) {
  auto& c = vc::ctx();
  Pose v = poses(g.pose, k); v.x = (float)v.x; v.y = (float)v.y; v.z = (float)v.z;
  std::map<int, std::vector<P3>> fresh; std::map<int, std::vector<Old>> old; bool ok = true; int fout = 0;
  std::vector<pcl::PointCloud<pcl::PointXYZ>> clouds(g.two ? 2 : 1);
  clouds[0].header.stamp = 1000 + k; clouds[0].header.frame_id = "origin"; if (g.two) { clouds[1].header.frame_id = "x"; clouds[1].header.stamp = 5; }
  for (size_t i = 0; i < in.size(); i++) {
    P3 p = A[in[i]]; clouds[g.two ? i % 2 : 0].push_back(pcl::PointXYZ(p[0], p[1], p[2]));
    if (!std::isfinite(p[0]) || !std::isfinite(p[1]) || !std::isfinite(p[2])) continue;
    bool o = true; double r, az, el; int id = cell(p, v, o, r, az, el);
    if (std::fabs(r - g.minr) < 1e-4 || std::fabs(r - g.maxr) < 1e-4) ok = false;
    if (r <= g.minr || r >= g.maxr) continue;
    if (!o) ok = false;
    fresh[id].push_back(p);
  }
  pcl::PointCloud<pcl::PointXYZI> prev = work;
  for (auto& q : prev) {
    P3 p{q.x, q.y, q.z}; bool o = true; double r, az, el; int id = cell(p, v, o, r, az, el);
    if (std::fabs(r - g.maxr) < 1e-4) ok = false;
    if (r >= g.maxr || q.intensity >= g.maxage) continue;
    int s = seen(g, az, el, v); if (s < 0) ok = false; if (s == 1) continue;
    if (!o) ok = false;
    auto f = fresh.find(id); if (f != fresh.end() && (int)f->second.size() >= g.support) continue;
    old[id].push_back({p, q.intensity + g.dt}); fout++;
  }
  processPointcloud(work, clouds, g.fov, v.yaw, v.pitch, Eigen::Vector3f(v.x, v.y, v.z), g.minr, g.maxr, g.maxage, g.dt, g.support);
  c.transitions++;
  if (!ok) { c.info["undecided"]++; return false; }
  auto S = [&] { return show(hist) + "| " + show(g); };
  size_t want = old.size(); for (auto& f : fresh) if ((int)f.second.size() >= g.support) want++;
  std::vector<char> used(work.points.size(), 0);
  for (auto& f : fresh) {
    int n = 0; for (size_t i = 0; i < work.points.size(); i++) if (work.points[i].intensity == 0) for (auto& p : f.second) if (!used[i] && is(p, work.points[i])) { used[i] = 1; n++; }
    bool sup = (int)f.second.size() >= g.support;
    CK(n == (sup ? 1 : 0), sup ? (n ? "new-many" : "new-lost") : "new-noise", "%s: direction of (%g %g %g) with %zu points (support %d) is represented by %d points of age 0", S().c_str(), f.second[0][0], f.second[0][1], f.second[0][2], f.second.size(), g.support, n);
  }
  for (auto& o : old) {
    int n = 0; for (size_t i = 0; i < work.points.size(); i++) for (auto& p : o.second) if (!used[i] && is(p.p, work.points[i]) && vc::near(work.points[i].intensity, p.age, 1e-4)) { used[i] = 1; n++; }
    CK(n == 1, n ? "old-many" : "old-lost", "%s: remembered point (%g %g %g) of age %g appears %d times", S().c_str(), o.second[0].p[0], o.second[0].p[1], o.second[0].p[2], o.second[0].age, n);
  }
  for (size_t i = 0; i < work.points.size(); i++) CK(used[i], "foreign", "%s: working cloud holds (%g %g %g) of age %g, which is neither a supported new point nor a remembered one outside the view", S().c_str(), work.points[i].x, work.points[i].y, work.points[i].z, work.points[i].intensity);
  CK(work.points.size() == want && work.width == work.points.size() && work.height == 1, "size", "%s: %zu points (width %u), expected %zu", S().c_str(), work.points.size(), work.width, want);
  CK(work.header.stamp == (uint64_t)(1000 + k) && work.header.frame_id == "origin", "header", "%s: header not that of the new cloud", S().c_str());
  vc::outcome(vc::mix(vc::mix(want, fout), vc::hashf(work.points.empty() ? 0 : work.points.back().intensity + work.points.back().x)));
  return true;
}
static std::vector<std::vector<int>> C;
static void rec(const Cfg& g, int k, int depth, const pcl::PointCloud<pcl::PointXYZI>& work, std::vector<std::vector<int>>& hist, int lo, int hi) {
  for (int i = lo; i < hi; i++) {
    pcl::PointCloud<pcl::PointXYZI> w = work;
    hist.push_back(C[i]);
    vc::cur("%s | %s", show(hist).c_str(), show(g).c_str());
    vc::ctx().states++;
    step(g, k, C[i], w, hist);
    if (k + 1 < depth) rec(g, k + 1, depth, w, hist, 0, C.size()); else vc::ctx().traces++;
    hist.pop_back();
  }
}
int main(int argc, char** argv) {
  vc::init(argc, argv);
  auto& c = vc::ctx();
  uint64_t item = 0;
  std::vector<FOV> one{FOV(0, 0, 60, 50)}, two{FOV(0, 0, 60, 50), FOV(170, 0, 60, 40)}, rear{FOV(180, -10, 100, 60)}, none{FOV(0, 0, 0, 0)};
  std::vector<Cfg> G = {{one, 0.5f, 10.f, 1.0f, 0.3f, 1, 0, false}, {one, 0.5f, 10.f, 0.5f, 0.3f, 1, 1, false}, {two, 0.2f, 12.f, 2.f, 0.7f, 1, 1, true}, {rear, 0.5f, 10.f, 1.0f, 0.6f, 1, 2, false}, {none, 0.5f, 6.f, 0.7f, 0.5f, 1, 1, false}, {one, 0.5f, 10.f, 1.f, 0.3f, 1, 3, true}, {one, 0.5f, 10.f, 1.f, 0.3f, 2, 1, false}, {two, 0.2f, 12.f, 5.f, 1.f, 3, 2, true}};
  int n = A.size();
  // all clouds of up to two points (and every cloud of three from the points that share direction cells), all pairs of them
  C.push_back({}); for (int i = 0; i < n; i++) C.push_back({i}); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) C.push_back({i, j});
  size_t small = C.size();
  for (int i : {0, 1, 2, 6, 7}) for (int j : {0, 1, 2, 6, 7}) for (int k : {0, 1, 2, 6, 9}) C.push_back({i, j, k});
  C.push_back({0, 1, 2, 0, 1, 2, 6, 8, 9, 10}); C.push_back({10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0, 11, 12, 13});
  for (auto& g : G) for (size_t i = 0; i < C.size(); i++) { if (!vc::mine(item++)) continue; std::vector<std::vector<int>> h; rec(g, 0, 2, {}, h, i, i + 1); }
  // every remembered cloud of up to four finite points (any ages, also several in one direction), then one update
  std::vector<std::vector<int>> M; int nf = 11;
  for (int i = 0; i < nf; i++) { M.push_back({i}); for (int j = i; j < nf; j++) { M.push_back({i, j}); for (int k = j; k < nf; k++) { M.push_back({i, j, k}); if (i <= 2 && k >= 6) M.push_back({i, j, k, 1}); } } }
  for (auto& g : G) for (size_t i = 0; i < M.size(); i++) for (int rev = 0; rev < 2; rev++) { if (!vc::mine(item++)) continue;
    for (int sup = 1; sup <= 3; sup++) for (int k = 0; k < 2; k++) { Cfg h = g; h.support = sup; std::vector<std::vector<int>> hist{M[i]}; if (rev) std::reverse(hist[0].begin(), hist[0].end());
      pcl::PointCloud<pcl::PointXYZI> w; for (size_t q = 0; q < hist[0].size(); q++) { auto& p = A[hist[0][q]]; pcl::PointXYZI x; x.x = p[0]; x.y = p[1]; x.z = p[2]; x.intensity = 0.21f * (q + 1); w.push_back(x); }
      rec(h, k, k + 1, w, hist, 0, 1 + (int)A.size()); } }
  // three updates in a row over a reduced cloud set
  std::vector<std::vector<int>> R(C.begin(), C.begin() + 1 + n); for (size_t i = 1 + n; i < small; i += c.thorough ? 1 : 3) R.push_back(C[i]); R.push_back(C[C.size() - 2]); R.push_back(C.back()); C = R;
  for (auto& g : G) for (size_t i = 0; i < C.size(); i++) { if (!vc::mine(item++)) continue; std::vector<std::vector<int>> h; rec(g, 0, 3, {}, h, i, i + 1); }
  vc::sample("%s | %s", show(std::vector<std::vector<int>>{{0, 1}, {6}, {8}}).c_str(), show(G[1]).c_str());
  return vc::done();
}
