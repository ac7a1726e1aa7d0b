// C21: landing grid statistics of every bounded history of clouds, recorded grids, poses and reconfigurations vs a per-cell reference.
#include "vc.h"
#include <safe_landing_planner/safe_landing_planner_node.hpp>
using namespace avoidance;
typedef Eigen::Vector3f V3;
typedef safe_landing_planner::SafeLandingPlannerNodeConfig Conf;
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
struct Par { float size, cell; int smooth; float alpha; };
static const std::vector<Par> PAR = {{4, 1, 0, 0.5f}, {5, 2, 1, 0.9f}, {3, 0.75f, -1, 0}, {2.1f, 0.7f, 2, 0.25f}, {10, 1, 1, 1}, {1, 10, 0, 0.5f}, {20, 0.1f, 0, 0.8f}};
static const std::vector<V3> POS = {V3(0, 0, 5), V3(0.37f, -0.61f, 4), V3(1000.3f, -777.7f, 3), V3(-54321.5f, 20000.25f, 1), V3(-2, 2, -7)};
struct P { float fx, fy, z; int kind; };  // kind 0: fraction of the half size; 1: largest float inside the upper limit of x (2: y, 3: both); 4: smallest inside the lower limit; 5: exactly on the limit; 6: non-finite; 7 just outside
static const std::vector<P> PTS = {{0.11f, 0.13f, 0, 0}, {0.12f, 0.14f, 0.3f, 0}, {0.115f, 0.135f, -4, 0}, {-0.63f, 0.37f, 25, 0}, {0.93f, -0.91f, 1, 0}, {-0.97f, -0.95f, 2, 0}, {0, 0.2f, 1, 1}, {0.3f, 0, 1.5f, 2}, {0, 0, 3, 3}, {0, 0, 0.5f, 4}, {1, 0.2f, 9, 5}, {-1, 0.2f, 9, 5}, {0.2f, 1, 9, 5}, {NAN, 0, 1, 6}, {0, NAN, 1, 6}, {0, 0, NAN, 6}, {1, 0, 9, 7}, {0, -1, 9, 7}, {40, 3, 9, 0}, {0.11f, -30, 9, 0}};
static int dim(float size, float cell) { return (int)std::ceil(size / cell); }
struct G { int n = 0; float size = 0, cell = 0; std::vector<double> m, v; std::vector<int> k; void clear(float s, float ce) { size = s; cell = ce; n = dim(s, ce); m.assign(n * n, 0); v.assign(n * n, 0); k.assign(n * n, 0); } };
static V3 place(const P& p, const V3& pos, float size) {
  float h = size / 2.f, hx = pos.x() + h, hy = pos.y() + h, lx = pos.x() - h, ly = pos.y() - h;
  switch (p.kind) {
    case 1: return V3(std::nextafter(hx, -INFINITY), pos.y() + p.fy * h, p.z);
    case 2: return V3(pos.x() + p.fx * h, std::nextafter(hy, -INFINITY), p.z);
    case 3: return V3(std::nextafter(hx, -INFINITY), std::nextafter(hy, -INFINITY), p.z);
    case 4: return V3(std::nextafter(lx, INFINITY), std::nextafter(ly, INFINITY), p.z);
    case 7: return V3(pos.x() + p.fx * (h + 0.02f), pos.y() + p.fy * (h + 0.02f), p.z);
    case 6: return V3(std::isnan(p.fx) ? NAN : pos.x() + 0.1f, std::isnan(p.fy) ? NAN : pos.y() + 0.1f, p.z);
    default: return V3(pos.x() + p.fx * h, pos.y() + p.fy * h, p.z);
  }
}
// -1 outside, -2 not judged
static int cellOf(float x, float pos, float size, float cell) {
  double lo = (double)pos - size / 2., hi = (double)pos + size / 2.;
  float flo = pos - size / 2.f, fhi = pos + size / 2.f;
  double ulp = 4e-7 * (std::fabs(pos) + size);
  if (std::fabs(x - lo) < ulp && (double)flo != lo) return -2;
  if (std::fabs(x - hi) < ulp && (double)fhi != hi) return -2;
  if (!(x > lo && x < hi)) return -1;
  int n = dim(size, cell); double u = (x - lo) / cell, r = std::round(u);
  if (std::fabs(u - r) * cell < 1e-6 * size + 2 * ulp) { if (r <= 0) return 0; if (r >= n) return n - 1; return -2; }
  return std::min(n - 1, (int)std::floor(u));
}
struct Cloud { std::vector<int> pts; };
struct Ev { int kind, a, b; };  // 0 cloud a at position b; 1 reconfigure a; 2 recorded grid a at position b
static std::string show(const std::vector<Ev>& h, const std::vector<Cloud>& C) { std::string s; char b[120]; for (auto& e : h) { if (e.kind == 0) { s += "cloud{"; for (int i : C[e.a].pts) { snprintf(b, sizeof b, "(%g %g %g %d)", PTS[i].fx, PTS[i].fy, PTS[i].z, PTS[i].kind); s += b; } snprintf(b, sizeof b, "} at (%g %g) ", POS[e.b].x(), POS[e.b].y()); } else if (e.kind == 1) snprintf(b, sizeof b, "reconfigure(size %g cell %g smoothing %d alpha %g) ", PAR[e.a].size, PAR[e.a].cell, PAR[e.a].smooth, PAR[e.a].alpha); else snprintf(b, sizeof b, "recorded %d at %d ", e.a, e.b); s += b; } return s; }
struct Raw { float size, cell; int seed; };
static const std::vector<Raw> RAW = {{4, 1, 1}, {4, 1, 2}, {3, 1, 3}, {4, 2, 4}, {5, 2, 5}};
static safe_landing_planner::SLPGridMsg rawMsg(int i) {
  const Raw& r = RAW[i]; int n = dim(r.size, r.cell); safe_landing_planner::SLPGridMsg g; g.grid_size = r.size; g.cell_size = r.cell; g.header.seq = 100 + i;
  g.mean.layout.dim.resize(2); g.mean.layout.dim[0].size = g.mean.layout.dim[1].size = n; g.std_dev.layout = g.counter.layout = g.land.layout = g.mean.layout;
  for (int k = 0; k < n * n; k++) { g.mean.data.push_back(((k * 7 + r.seed * 3) % 11) * 0.5f - 2); g.std_dev.data.push_back(((k * 5 + r.seed) % 7) * 0.25f); g.counter.data.push_back((k * 3 + r.seed) % 9); g.land.data.push_back(0); }
  return g;
}
struct Sys {
  std::shared_ptr<SafeLandingPlanner> p; G g, old; Par par; int smooth = 1; bool pending = false, judged = true;
  Sys() : p(new SafeLandingPlanner) { g.clear(10, 1); old = g; par = {10, 1, 1, 0.8f}; }
  Sys copy() const { Sys s = *this; s.p = std::make_shared<SafeLandingPlanner>(*p); return s; }
};
static void compare(const char* what, const Grid& gr, const G& g, const std::vector<Ev>& h, const std::vector<Cloud>& C) {
  auto& c = vc::ctx();
  Eigen::MatrixXf m = gr.getMean(), v = gr.getVariance(); Eigen::MatrixXi k = gr.getCounter();
  bool d = gr.getRowColSize() == g.n && m.rows() == g.n && m.cols() == g.n && v.rows() == g.n && v.cols() == g.n && k.rows() == g.n && k.cols() == g.n && gr.land_.rows() == g.n && gr.land_.cols() == g.n;
  CK(d, "dimensions", "%s: %s has %ld rows, expected %d", show(h, C).c_str(), what, (long)m.rows(), g.n);
  CK(gr.getGridSize() == g.size && gr.getCellSize() == g.cell, "size", "%s: %s size %g cell %g", show(h, C).c_str(), what, gr.getGridSize(), gr.getCellSize());
  if (!d) return;
  uint64_t hs = 0;
  for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) {
    int q = i * g.n + j;
    CK(k(i, j) == g.k[q], "count", "%s: %s cell (%d %d) counts %d points, expected %d", show(h, C).c_str(), what, i, j, k(i, j), g.k[q]);
    CK(std::fabs(m(i, j) - g.m[q]) <= 1e-4 * (1 + std::fabs(g.m[q])), "mean", "%s: %s cell (%d %d) mean %g, expected %g", show(h, C).c_str(), what, i, j, m(i, j), g.m[q]);
    CK(std::fabs(v(i, j) - g.v[q]) <= 1e-3 * (1 + g.v[q]), "variance", "%s: %s cell (%d %d) variance %g, expected %g", show(h, C).c_str(), what, i, j, v(i, j), g.v[q]);
    if (g.k[q]) hs = vc::mix(hs, vc::mix(q, vc::hashf(std::round(g.m[q] * 1e3))));
  }
  vc::outcome(hs);
}
static void step(Sys& s, const std::vector<Ev>& h, const std::vector<Cloud>& C, bool verdict) {
  auto& c = vc::ctx();
  const Ev& e = h.back();
  if (verdict) c.transitions++;
  if (e.kind == 1) {
    const Par& q = PAR[e.a]; Conf f = Conf::__getDefault__();
    f.grid_size = q.size; f.cell_size = q.cell; f.smoothing_size = q.smooth; f.alpha = q.alpha; f.n_points_threshold = 2;
    s.p->dynamicReconfigureSetParams(f, 0);
    s.par = q; s.pending = s.g.size != q.size || s.g.cell != q.cell || s.smooth != q.smooth;
    return;
  }
  if (s.pending) { s.g.clear(s.par.size, s.par.cell); s.old = s.g; s.smooth = s.par.smooth; s.pending = false; s.judged = true; }
  V3 pos = POS[e.b];
  s.p->setPose(pos, Eigen::Quaternionf(1, 0, 0, 0));
  G prev = s.g;
  if (e.kind == 0) {
    s.p->play_rosbag_ = false; s.p->cloud_.points.clear();
    s.g.clear(s.g.size, s.g.cell);
    std::vector<std::vector<double>> zs(s.g.n * s.g.n);
    for (int i : C[e.a].pts) {
      V3 q = place(PTS[i], pos, s.g.size); s.p->cloud_.push_back(pcl::PointXYZ(q.x(), q.y(), q.z()));
      if (q.hasNaN()) continue;
      int cx = cellOf(q.x(), pos.x(), s.g.size, s.g.cell), cy = cellOf(q.y(), pos.y(), s.g.size, s.g.cell);
      if (cx == -1 || cy == -1) continue;
      if (cx < 0 || cy < 0) { s.judged = false; continue; }
      zs[cx * s.g.n + cy].push_back(q.z());
    }
    for (int k = 0; k < s.g.n * s.g.n; k++) if (!zs[k].empty()) { double m = 0, v = 0; for (double z : zs[k]) m += z; m /= zs[k].size(); for (double z : zs[k]) v += (z - m) * (z - m); s.g.m[k] = m; s.g.v[k] = v / zs[k].size(); s.g.k[k] = zs[k].size(); }
  } else {
    s.p->play_rosbag_ = true; s.p->raw_grid_ = rawMsg(e.a);
    const Raw& r = RAW[e.a];
    if (s.g.size != r.size || s.g.cell != r.cell) { prev.clear(r.size, r.cell); s.judged = true; }
    s.g.clear(r.size, r.cell);
    for (int k = 0; k < s.g.n * s.g.n; k++) { s.g.m[k] = s.p->raw_grid_.mean.data[k]; s.g.v[k] = std::pow((double)s.p->raw_grid_.std_dev.data[k], 2); s.g.k[k] = s.p->raw_grid_.counter.data[k]; }
  }
  for (int k = 0; k < s.g.n * s.g.n; k++) { s.g.m[k] = s.par.alpha * prev.m[k] + (1. - s.par.alpha) * s.g.m[k]; s.g.v[k] = s.par.alpha * prev.v[k] + (1. - s.par.alpha) * s.g.v[k]; }
  s.old = prev;
  if (verdict) vc::cur("%s", show(h, C).c_str());
  s.p->runSafeLandingPlanner();
  if (!verdict) return;
  c.states++;
  if (!s.judged) { c.info["undecided"]++; return; }
  compare("grid", s.p->getGrid(), s.g, h, C); compare("previous grid", s.p->getPreviousGrid(), s.old, h, C);
  Eigen::Vector2i pi = s.p->getPositionIndex(); double u = s.g.size / 2. / s.g.cell;
  CK(pi.minCoeff() >= 0 && pi.maxCoeff() < s.g.n && std::fabs(pi.x() + 0.5 - u) <= 0.51 + 0.1 * s.g.n * (std::fabs(pos.x()) > 1e4) && std::fabs(pi.y() + 0.5 - u) <= 0.51 + 0.1 * s.g.n * (std::fabs(pos.x()) > 1e4), "vehicle-cell", "%s: vehicle cell (%d %d) of %d", show(h, C).c_str(), pi.x(), pi.y(), s.g.n);
}
// the node's published map: the grid of the update before, cell by cell
static void node(const std::vector<Ev>& h) {
  auto& c = vc::ctx();
  shim::bus().clear(); shim::clock_ns = 1000LL * 1000000000LL; shim::bus().params_b["play_rosbag"] = true;
  SafeLandingPlannerNode* n = new SafeLandingPlannerNode(ros::NodeHandle());
  n->cloud_msg_mutex_.reset(new std::mutex); n->transformed_cloud_mutex_.reset(new std::mutex); n->cloud_ready_cv_.reset(new std::condition_variable);
  std::vector<Cloud> C; Sys s; Conf f = Conf::__getDefault__(); f.grid_size = 4; f.cell_size = 1; f.smoothing_size = 0; f.alpha = 0.5; f.n_points_threshold = 4; f.std_dev_threshold = 0.6;
  n->server_.shim_reconfigure(f);
  SafeLandingPlanner mirror; mirror.play_rosbag_ = true; mirror.dynamicReconfigureSetParams(f, 0);
  std::vector<std::shared_ptr<const safe_landing_planner::SLPGridMsg>> out;
  shim::bus().on_publish = [&](const shim::Pub& p) { if (p.topic.find("grid_slp") != std::string::npos && p.topic.find("raw") == std::string::npos) out.push_back(std::make_shared<safe_landing_planner::SLPGridMsg>(*(const safe_landing_planner::SLPGridMsg*)p.msg.get())); };
  G g, old; g.clear(4, 1); old = g; Eigen::MatrixXi land = Eigen::MatrixXi::Zero(4, 4), oland = land;
  std::vector<Ev> done; int64_t lastseq = -1;
  for (auto& e : h) {
    done.push_back(e); vc::cur("node: %s", show(done, C).c_str());
    geometry_msgs::PoseStamped ps; ps.pose.position.x = POS[e.b].x(); ps.pose.position.y = POS[e.b].y(); ps.pose.position.z = POS[e.b].z(); ps.pose.orientation.w = 1;
    shim::deliver("mavros/local_position/pose", ps); shim::deliver("/raw_grid_slp", rawMsg(e.a));
    shim::clock_ns += 100000000LL; out.clear();
    n->cmdLoopCallback(ros::TimerEvent());
    const Raw& r = RAW[e.a]; old = g; oland = land;
    if (g.size != r.size || g.cell != r.cell) { old.clear(r.size, r.cell); oland = Eigen::MatrixXi::Zero(old.n, old.n); }
    auto m = rawMsg(e.a); g.clear(r.size, r.cell); land = Eigen::MatrixXi::Zero(g.n, g.n);
    for (int k = 0; k < g.n * g.n; k++) { g.m[k] = 0.5 * old.m[k] + 0.5 * m.mean.data[k]; g.v[k] = 0.5 * old.v[k] + 0.5 * std::pow((double)m.std_dev.data[k], 2); g.k[k] = m.counter.data[k]; if (std::fabs(std::sqrt(g.v[k]) - 0.6) < 1e-5) c.info["undecided"]++; land(k / g.n, k % g.n) = g.k[k] >= 4 && std::sqrt(g.v[k]) <= 0.6; }
    c.states++; c.transitions++;
    CK(out.size() == 1, "published", "node: %s: %zu maps published", show(done, C).c_str(), out.size());
    if (out.size() != 1) continue;
    auto& o = *out[0];
    CK(lastseq < 0 || (int64_t)o.header.seq == lastseq + 1, "published-seq", "node: %s: map number %ld follows number %ld", show(done, C).c_str(), (long)o.header.seq, (long)lastseq);
    lastseq = o.header.seq;
    bool sz = o.grid_size == old.size && o.cell_size == old.cell; for (auto* l : {&o.mean.layout, &o.std_dev.layout}) sz &= l->dim.size() == 2 && (int)l->dim[0].size == old.n && (int)l->dim[1].size == old.n; for (auto* l : {&o.counter.layout, &o.land.layout}) sz &= l->dim.size() == 2 && (int)l->dim[0].size == old.n && (int)l->dim[1].size == old.n;
    sz &= (int)o.mean.data.size() == old.n * old.n && (int)o.std_dev.data.size() == old.n * old.n && (int)o.counter.data.size() == old.n * old.n && (int)o.land.data.size() == old.n * old.n;
    CK(sz, "published-size", "node: %s: published map has other dimensions", show(done, C).c_str());
    if (!sz) continue;
    for (int k = 0; k < old.n * old.n; k++) {
      CK(std::fabs(o.mean.data[k] - old.m[k]) < 1e-4 * (1 + std::fabs(old.m[k])) && std::fabs(o.std_dev.data[k] - std::sqrt(old.v[k])) < 1e-3 && (int)o.counter.data[k] == old.k[k], "published-cell", "node: %s: published cell %d: mean %g deviation %g count %d, expected %g %g %d", show(done, C).c_str(), k, o.mean.data[k], o.std_dev.data[k], (int)o.counter.data[k], old.m[k], std::sqrt(old.v[k]), old.k[k]);
      CK((int)o.land.data[k] == oland(k / old.n, k % old.n), "published-land", "node: %s: published cell %d landable %d", show(done, C).c_str(), k, (int)o.land.data[k]);
    }
  }
  c.traces++;
  delete n;
}
int main(int argc, char** argv) {
  vc::init(argc, argv);
  auto& c = vc::ctx();
  uint64_t item = 0; int np = PTS.size();
  // 1. every cloud of up to three points (order matters for repeated cells) on every configuration and position
  std::vector<Cloud> C1; C1.push_back({}); for (int i = 0; i < np; i++) { C1.push_back({{i}}); for (int j = 0; j < np; j++) { C1.push_back({{i, j}}); if (i <= 9 && j <= 9) for (int k = 0; k < 10; k++) C1.push_back({{i, j, k}}); } }
  for (size_t q = 0; q < PAR.size(); q++) for (size_t b = 0; b < POS.size(); b++) {
    Sys base; std::vector<Ev> h{{1, (int)q, 0}}; step(base, h, C1, false); h.push_back({0, 0, (int)b}); step(base, h, C1, false); h.push_back({});
    for (size_t a = 0; a < C1.size(); a++) { bool big = PAR[q].size / PAR[q].cell > 50; if (big && C1[a].pts.size() > 1) continue; if (!vc::mine(item++)) continue; Sys s = base.copy(); h.back() = {0, (int)a, (int)b}; step(s, h, C1, true); c.traces++; }
  }
  // 2. points just inside and outside the limits for a fine set of vehicle positions and sizes
  for (int q = 0; q < 400; q++) { if (!vc::mine(item++)) continue;
    for (int w = 0; w < 12; w++) {
      float size = 1 + 0.6f * w + 0.013f * (q % 5), cell = (float[]){0.1f, 0.25f, 0.3f, 0.7f, 1, 1.7f}[(q / 5) % 6]; V3 pos(((q * 37) % 1000) * 0.731f - 300, ((q * 91) % 777) * 1.37f - 400, 5);
      SafeLandingPlanner p; Conf f = Conf::__getDefault__(); f.grid_size = size; f.cell_size = cell; f.smoothing_size = 0; f.alpha = 0; p.dynamicReconfigureSetParams(f, 0); p.setPose(pos, Eigen::Quaternionf(1, 0, 0, 0));
      for (int k = 1; k <= 4; k++) { V3 v = place({0.1f, 0.1f, 1, k}, pos, size); p.cloud_.push_back(pcl::PointXYZ(v.x(), v.y(), v.z())); }
      vc::cur("border points: size %g cell %g at (%.9g %.9g)", size, cell, pos.x(), pos.y());
      p.runSafeLandingPlanner(); c.states++; c.transitions++; c.traces++;
      int tot = p.getGrid().getCounter().sum(); CK(tot <= 4, "border-count", "border points: size %g cell %g at (%g %g): %d counted", size, cell, pos.x(), pos.y(), tot);
    } }
  // 3. histories of clouds, positions and reconfigurations
  std::vector<Cloud> C2 = {{{}}, {{0, 1, 2}}, {{3, 0}}, {{4, 5, 6, 7, 8, 9}}, {{10, 13, 14, 15, 1, 1}}, {{0, 3, 4, 5}}};
  std::vector<Ev> al; for (int a = 0; a < 6; a++) for (int b : {0, 1}) al.push_back({0, a, b}); al.push_back({0, 1, 2}); for (int q = 0; q < 6; q++) al.push_back({1, q, 0});
  int depth = c.thorough ? 5 : 4;
  std::function<void(const Sys&, std::vector<Ev>&, int, const std::vector<Ev>&, const std::vector<Cloud>&)> rec = [&](const Sys& s, std::vector<Ev>& h, int d, const std::vector<Ev>& A, const std::vector<Cloud>& C) {
    for (auto& e : A) { if (h.size() == 1 && !vc::mine(item++)) continue; Sys t = s.copy(); h.push_back(e); step(t, h, C, h.size() > 1 || c.shard == 0); if ((int)h.size() < d) rec(t, h, d, A, C); else c.traces++; h.pop_back(); }
  };
  { std::vector<Ev> h; rec(Sys(), h, depth, al, C2); }
  // 4. the same with recorded grids
  std::vector<Ev> ar; for (int a = 0; a < (int)RAW.size(); a++) for (int b : {0, 1}) ar.push_back({2, a, b}); for (int q : {0, 1, 4}) ar.push_back({1, q, 0}); ar.push_back({0, 1, 0});
  { std::vector<Ev> h; rec(Sys(), h, depth, ar, C2); }
  // 5. what the node publishes
  for (int a = 0; a < 125; a++) { if (!vc::mine(item++)) continue; node({{2, a % 5, a % 3}, {2, a / 5 % 5, 1}, {2, a / 25, 0}, {2, a % 5, 1}}); }
  vc::sample("%s", show({{1, 1, 0}, {0, 3, 1}, {0, 1, 0}}, C2).c_str());
  return vc::done();
}
