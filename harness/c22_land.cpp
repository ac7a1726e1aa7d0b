// C22: landable flags for every bounded grid of cell statistics and every neighbourhood/threshold setting vs the rule.
#include "vc.h"
#include <safe_landing_planner/safe_landing_planner.hpp>
using namespace avoidance;
typedef safe_landing_planner::SafeLandingPlannerNodeConfig Conf;
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
struct Par { int n; float points, dev; int smooth, min_land; float diff; int max_diff; };
struct Cell { int k; float dev, mean; };
static std::string show(const Par& p, const std::vector<Cell>& g) {
  char b[160]; snprintf(b, sizeof b, "%dx%d cells, points %g deviation %g neighbourhood %d landable > %d height step %g at most %d:", p.n, p.n, p.points, p.dev, p.smooth, p.min_land, p.diff, p.max_diff); std::string s = b;
  if (p.n <= 5) for (int i = 0; i < p.n * p.n; i++) { snprintf(b, sizeof b, "%s%d/%g/%g", i % p.n ? " " : " | ", g[i].k, g[i].dev, g[i].mean); s += b; }
  return s;
}
static std::unique_ptr<SafeLandingPlanner> mk(const Par& p) {
  std::unique_ptr<SafeLandingPlanner> s(new SafeLandingPlanner); Conf f = Conf::__getDefault__();
  f.grid_size = p.n; f.cell_size = 1; f.n_points_threshold = p.points; f.std_dev_threshold = p.dev; f.smoothing_size = p.smooth; f.min_n_land_cells = p.min_land; f.mean_diff_thr = p.diff; f.max_n_mean_diff_cells = p.max_diff; f.alpha = 0;
  s->setPose(Eigen::Vector3f(0, 0, 5), Eigen::Quaternionf(1, 0, 0, 0)); s->dynamicReconfigureSetParams(f, 0); s->runSafeLandingPlanner();
  return s;
}
static std::vector<char> rule(const Par& p, const std::vector<Cell>& g) {
  int n = p.n; std::vector<char> base(n * n), r(n * n);
  for (int i = 0; i < n * n; i++) base[i] = g[i].k >= p.points && g[i].dev <= p.dev;
  if (p.smooth <= 0) return base;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    int land = 0, diff = 0;
    for (int a = i - p.smooth; a <= i + p.smooth; a++) for (int b = j - p.smooth; b <= j + p.smooth; b++) {
      bool in = a >= 0 && b >= 0 && a < n && b < n;
      if (in) land += base[a * n + b];
      if (std::fabs(g[i * n + j].mean - (in ? g[a * n + b].mean : 0.f)) > p.diff) diff++;
    }
    r[i * n + j] = land > p.min_land && diff <= p.max_diff;
  }
  return r;
}
// sets the statistics directly and takes the decision
static void judge(SafeLandingPlanner& s, const Par& p, const std::vector<Cell>& g) {
  auto& c = vc::ctx();
  for (int i = 0; i < p.n; i++) for (int j = 0; j < p.n; j++) { Eigen::Vector2i q(i, j); s.grid_.setCounter(q, g[i * p.n + j].k); s.grid_.setMean(q, g[i * p.n + j].mean); s.grid_.setVariance(q, g[i * p.n + j].dev * g[i * p.n + j].dev); }
  s.isLandingPossible();
  c.states++; c.transitions++; c.traces++;
  std::vector<char> w = rule(p, g); uint64_t h = 0; int nl = 0;
  for (int i = 0; i < p.n * p.n; i++) {
    int got = s.grid_.land_(i / p.n, i % p.n);
    CK(got == w[i], got ? "landable" : "not-landable", "%s: cell (%d %d) is %slandable", show(p, g).c_str(), i / p.n, i % p.n, got ? "" : "not ");
    if (w[i]) CK(got == 0 || p.smooth > 0 || (g[i].k >= p.points && g[i].dev <= p.dev), "no-evidence", "%s: cell %d", show(p, g).c_str(), i);
    nl += w[i]; if (i < 60) h = h * 2 + w[i];
  }
  vc::outcome(vc::mix(h, nl));
}
int main(int argc, char** argv) {
  vc::init(argc, argv);
  auto& c = vc::ctx();
  uint64_t item = 0;
  // 1. one cell at and around both thresholds
  for (float pt : {0.f, 1.f, 20.f, 20.5f, 5000.f}) for (float dv : {0.f, 0.25f, 0.5f, 1.f}) for (int sm : {-1, 0, 1, 3}) { if (!vc::mine(item++)) continue;
    for (int ml : {0, 1}) for (int md : {0, 1, 100}) for (int k : {0, 1, 2, 19, 20, 21, 4999, 5000, 5001}) for (float d : {0.f, 0.2499f, 0.25f, 0.2501f, 0.5f, 0.501f, 1.f, 1.01f}) for (float m : {0.f, -3.f}) { Par p{1, pt, dv, sm, ml, 0.5f, md}; auto s = mk(p); vc::cur("one cell"); judge(*s, p, {{k, d, m}}); } }
  // 2. every pattern of good cells on 4x4, every neighbourhood limit
  for (int sm = 0; sm <= 3; sm++) for (int ml : {0, 1, 3, 4, 5, 6, 7, 8, 9, 15, 16}) { if (sm == 0 && ml) continue; if (sm == 1 && ml > 9) continue; if (sm > 1 && (ml == 3 || ml == 7)) continue; if (!vc::mine(item++)) continue;
    Par p{4, 10, 0.5f, sm, ml, 0.5f, 100}; auto s = mk(p); vc::cur("%s", show(p, std::vector<Cell>(16)).c_str());
    for (int q = 0; q < 65536; q++) { std::vector<Cell> g(16); for (int i = 0; i < 16; i++) g[i] = q >> i & 1 ? Cell{10, 0.5f, 0} : i % 2 ? Cell{9, 0.1f, 0} : Cell{50, 0.51f, 0}; judge(*s, p, g); } }
  // 3. every pattern of heights on 4x4, every number of tolerated steps (the grid lies at height 0 or away from it)
  for (int sm = 1; sm <= 2; sm++) for (int md : {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 24, 25}) for (int off = 0; off < 2; off++) { if (sm == 1 && md > 9) continue; if (sm == 2 && md && md < 9 && md % 3) continue; if (!vc::mine(item++)) continue;
    Par p{4, 10, 0.5f, sm, 0, 0.5f, md}; auto s = mk(p); vc::cur("%s", show(p, std::vector<Cell>(16)).c_str());
    for (int q = 0; q < 65536; q++) { std::vector<Cell> g(16); for (int i = 0; i < 16; i++) g[i] = Cell{10, 0, (off ? -4.f : 0.f) + (q >> i & 1 ? (i % 3 ? 0.75f : 0.5f) : 0.f)}; judge(*s, p, g); } }
  // 4. good cells and heights together on 3x3
  for (int sm = 1; sm <= 2; sm++) for (int ml : {0, 2, 4, 8}) for (int md : {0, 2, 5, 8, 24}) { if (!vc::mine(item++)) continue;
    Par p{3, 3, 0.25f, sm, ml, 0.25f, md}; auto s = mk(p); vc::cur("%s", show(p, std::vector<Cell>(9)).c_str());
    for (int a = 0; a < 512; a++) for (int b = 0; b < 512; b++) { if (!c.thorough && (a * 7 + b) % 3) continue; std::vector<Cell> g(9); for (int i = 0; i < 9; i++) g[i] = Cell{a >> i & 1 ? 3 : 2, 0.25f, b >> i & 1 ? 0.5f : 0.f}; judge(*s, p, g); } }
  // 5. default sized grids with one or two bad cells, wide neighbourhoods
  for (int n : {10, 40}) for (int sm : {1, 5, 6, 100}) for (int bad = 0; bad < 3; bad++) { if (sm == 100 && n == 40) continue; if (!vc::mine(item++)) continue;
    Par p{n, 100, 0.2f, sm, sm == 1 ? 8 : 70, 0.1f, sm == 1 ? 0 : 70}; auto s = mk(p); vc::cur("%s", show(p, {}).c_str());
    int st = n == 40 ? (sm == 1 ? 13 : 97) : 1;
    if (sm == 100) st = 17;
    for (int q = 0; q < n * n; q += st) { std::vector<Cell> g(n * n, Cell{100, 0.1f, 0}); int r = (q * 31 + 7) % (n * n); if (bad == 0) { g[q].k = 99; g[r].k = 0; } else if (bad == 1) { g[q].dev = 0.3f; g[r].dev = 0.3f; } else { g[q].mean = 0.2f; g[r].mean = -0.2f; } judge(*s, p, g); } }
  // 6. from clouds: a flat field of points with every pair of defects on 4x4, through the whole update
  for (int sm = 0; sm <= 2; sm++) for (int q = 0; q < 16; q++) { if (!vc::mine(item++)) continue;
    for (int r = 0; r < 16; r++) for (int d1 = 0; d1 < 4; d1++) for (int d2 = 0; d2 < 4; d2++) for (int lim = 0; lim < 3; lim++) {
      Par p{4, 4, 0.25f, sm, (int[]){0, 5, 8}[lim], 0.5f, (int[]){9, 1, 0}[lim]}; auto s = mk(p); std::vector<Cell> g(16); s->cloud_.points.clear();
      for (int i = 0; i < 16; i++) { int d = i == q ? d1 : i == r ? d2 : 0; int n = d == 1 ? 3 : 4; float z0 = d == 3 ? 1 : 0, dz = d == 2 ? 0.5f : 0.1f; for (int k = 0; k < n; k++) s->cloud_.push_back(pcl::PointXYZ(i / 4 - 2 + 0.2f + 0.15f * k, i % 4 - 2 + 0.7f - 0.1f * k, z0 + (k % 2 ? dz : -dz))); float m = n == 3 ? z0 - dz / 3 : z0; g[i] = Cell{n, d == 2 ? 0.5f : 0.1f, m}; }
      vc::cur("%s from points", show(p, g).c_str());
      s->runSafeLandingPlanner(); c.states++; c.transitions++; c.traces++;
      std::vector<char> w = rule(p, g);
      for (int i = 0; i < 16; i++) CK(s->getGrid().land_(i / 4, i % 4) == w[i], "from-points", "%s from points: cell (%d %d) landable %d", show(p, g).c_str(), i / 4, i % 4, s->getGrid().land_(i / 4, i % 4));
    } }
  vc::sample("%s", show({3, 3, 0.25f, 1, 2, 0.25f, 2}, std::vector<Cell>(9, Cell{3, 0.25f, 0.5f})).c_str());
  return vc::done();
}
