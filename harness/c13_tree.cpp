// C13: look-ahead tree of the local planner: structure, expansion order and path, on every scene of the bounded set.
#include "vc.h"
#include <local_planner/star_planner.h>
#include <local_planner/planner_functions.h>
#include <local_planner/tree_node.h>
using namespace avoidance;
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
typedef Eigen::Vector3f V3;
struct Par { int children, expand; float step, range, margin, weight; };
static void block(pcl::PointCloud<pcl::PointXYZI>& cl, V3 p, V3 size) { for (float x = -size.x(); x <= size.x() + 1e-3f; x += 0.5f) for (float y = -size.y(); y <= size.y() + 1e-3f; y += 0.5f) for (float z = -size.z(); z <= size.z() + 1e-3f; z += 0.5f) { pcl::PointXYZI q; q.x = p.x() + x; q.y = p.y() + y; q.z = p.z() + z; q.intensity = 0; cl.push_back(q); } }
static void tree(const pcl::PointCloud<pcl::PointXYZI>& cl, const std::string& scene, const V3& pos, const V3& vel, const V3& goal, const V3& line, const costParameters& cp, const Par& p, int reuse) {
  auto& c = vc::ctx();
  char S[500]; snprintf(S, sizeof S, "%s, from (%g %g %g) moving (%g %g %g) to (%g %g %g), children %d expansions %d step %g range %g margin %g weight %g", scene.c_str(), pos.x(), pos.y(), pos.z(), vel.x(), vel.y(), vel.z(), goal.x(), goal.y(), goal.z(), p.children, p.expand, p.step, p.range, p.margin, p.weight);
  vc::cur("%s", S);
  StarPlanner s;
  avoidance::LocalPlannerNodeConfig cf = avoidance::LocalPlannerNodeConfig::__getDefault__();
  cf.children_per_node_ = p.children; cf.n_expanded_nodes_ = p.expand; cf.tree_node_distance_ = p.step; cf.max_sensor_range_ = p.range; cf.min_sensor_range_ = 0.2; cf.smoothing_margin_degrees_ = p.margin; cf.tree_heuristic_weight_ = p.weight;
  s.dynamicReconfigureSetStarParams(cf, 0);
  s.setParams(cp); s.setPose(pos, vel); s.setGoal(goal); s.setPointcloud(cl); s.setClosestPointOnLine(line);
  for (int i = 0; i <= reuse; i++) s.buildLookAheadTree();
  auto& t = s.tree_; auto& cs = s.closed_set_; auto& path = s.path_node_positions_;
  c.states += t.size(); c.transitions += cs.size(); c.traces++;
  int N = t.size();
  CK(N >= 1 && (t[0].getPosition() - pos).norm() < 1e-6, "root", "%s: the tree does not start at the vehicle", S);
  if (N < 1) return;
  CK((int)cs.size() <= p.expand, "expansions", "%s: %zu nodes expanded", S, cs.size());
  std::vector<int> nch(N, 0), closedAt(N, -1);
  for (size_t i = 0; i < cs.size(); i++) { bool ok = cs[i] >= 0 && cs[i] < N; CK(ok && closedAt[cs[i]] < 0, "closed-set", "%s: closed set entry %zu is node %d", S, i, cs[i]); if (!ok) return; closedAt[cs[i]] = i; }
  for (int i = 0; i < N; i++) {
    CK(t[i].closed_ == (closedAt[i] >= 0), "closed-flag", "%s: node %d closed flag %d", S, i, (int)t[i].closed_);
    CK(std::isfinite(t[i].total_cost_) || p.children == 0, "cost-finite", "%s: node %d costs %g", S, i, t[i].total_cost_);
    if (!i) { CK(t[0].depth_ == 0, "depth", "%s: root depth %d", S, t[0].depth_); continue; }
    int o = t[i].origin_;
    CK(o >= 0 && o < i, "parent", "%s: node %d has parent %d", S, i, o);
    if (o < 0 || o >= i) return;
    nch[o]++;
    CK(closedAt[o] >= 0, "parent-open", "%s: node %d has an unexpanded parent", S, i);
    CK(t[i].depth_ == t[o].depth_ + 1, "depth", "%s: node %d has depth %d, its parent %d", S, i, t[i].depth_, t[o].depth_);
    CK(std::fabs((t[i].getPosition() - t[o].getPosition()).norm() - p.step) < 2e-3, "step", "%s: node %d lies %g from its parent", S, i, (t[i].getPosition() - t[o].getPosition()).norm());
    for (int j = 0; j < i; j++) { float d = (t[i].getPosition() - t[j].getPosition()).norm(); CK(d >= 0.2f - 1e-4f, "spacing", "%s: nodes %d and %d are %g apart", S, j, i, d); }
  }
  for (int i = 0; i < N; i++) CK(nch[i] <= p.children, "children", "%s: node %d has %d children", S, i, nch[i]);
  // replay the search: which nodes exist when, which is the cheapest open one within range, which directions it offers
  int have = 1, node = 0; bool more = true; size_t n = 0;
  for (; n < (size_t)p.expand && more; n++) {
    if (n >= cs.size() || cs[n] != node) { // several equally cheap nodes are equally good
      bool tie = n < cs.size() && closedAt[cs[n]] == (int)n && cs[n] < have && n > 0 && std::fabs(t[cs[n]].total_cost_ - t[node].total_cost_) <= 1e-4 * std::fabs(t[node].total_cost_) && (t[cs[n]].getPosition() - pos).norm() < p.range + 1e-3;
      CK(tie, "order", "%s: expansion %zu took node %d, the cheapest open node within range is %d", S, n, n < cs.size() ? cs[n] : -1, node);
      if (!tie) return;
      node = cs[n];
    }
    Histogram h(ALPHA_RES); Eigen::MatrixXf m; std::vector<uint8_t> img; std::vector<candidateDirection> cd;
    generateNewHistogram(h, cl, t[node].getPosition());
    getCostMatrix(h, goal, t[node].getPosition(), t[node].getVelocity(), cp, p.margin, line, p.range, 0.2f, m, img);
    getBestCandidatesFromCostMatrix(m, p.children, cd);
    int add = 0;
    for (auto& k : cd) {
      V3 x = polarHistogramToCartesian(PolarPoint(k.elevation_angle, k.azimuth_angle, p.step), t[node].getPosition());
      float best = 1e9; for (int j = 0; j < have; j++) best = std::min(best, (t[j].getPosition() - x).norm());
      if (std::fabs(best - 0.2f) < 1e-4f) { c.info["undecided"]++; return; }
      if (best < 0.2f) continue;
      if (have >= N || t[have].origin_ != node || (t[have].getPosition() - x).norm() > 1e-3) { CK(false, "child", "%s: expanding node %d offers (%g %g %g), which the tree does not have", S, node, x.x(), x.y(), x.z()); return; }
      double hp = (goal - t[node].getPosition()).norm() * p.weight, hc = (goal - t[have].getPosition()).norm() * p.weight;
      double w = t[node].total_cost_ - hp + k.cost + hc;
      CK(std::fabs(t[have].total_cost_ - w) <= 1e-3 * std::fabs(w) + 0.1, "cost", "%s: node %d costs %g, its parent's cost and direction give %g", S, have, t[have].total_cost_, w);
      CK((t[have].getVelocity() - (t[have].getPosition() - t[node].getPosition())).norm() < 1e-3, "velocity", "%s: node %d does not move away from its parent", S, have);
      have++; add++;
    }
    std::vector<char> cl2(N, 0); for (size_t i = 0; i <= n; i++) cl2[cs[i]] = 1;
    more = false; float best = HUGE_VAL;
    for (int i = 0; i < have; i++) if (!cl2[i] && (t[i].getPosition() - pos).norm() < p.range && t[i].total_cost_ < best) { best = t[i].total_cost_; node = i; more = true; }
  }
  CK(n == cs.size() && have == N, "stop", "%s: %zu expansions and %d nodes, expected %zu and %d", S, cs.size(), N, n, have);
  // path
  int maxd = 0; for (int i = 0; i < N; i++) if (closedAt[i] < 0) maxd = std::max(maxd, t[i].depth_);
  CK(!path.empty() && (path.back() - pos).norm() < 1e-6, "path-start", "%s: path of %zu nodes does not end at the vehicle", S, path.size());
  if (path.empty()) return;
  CK((int)path.size() == maxd + 1, "path-depth", "%s: path of %zu nodes, the deepest unexpanded node has depth %d", S, path.size(), maxd);
  int at = -1; for (int i = 0; i < N; i++) if ((t[i].getPosition() - path[0]).norm() < 1e-6) { at = i; break; }
  CK(at >= 0 && (maxd == 0 || (closedAt[at] < 0 && t[at].depth_ == maxd)), "path-end", "%s: path ends at node %d (depth %d, expanded %d)", S, at, at < 0 ? -1 : t[at].depth_, at < 0 ? -1 : (int)(closedAt[at] >= 0));
  if (at < 0) return;
  for (size_t i = 0; i < path.size(); i++) { CK((t[at].getPosition() - path[i]).norm() < 1e-6, "path-link", "%s: path node %zu is not the parent of the one before", S, i); if (at == 0) { CK(i + 1 == path.size(), "path-link", "%s: path continues past the vehicle", S); break; } at = t[at].origin_; }
  for (size_t i = 0; i < path.size(); i++) for (size_t j = 0; j < i; j++) CK((path[i] - path[j]).norm() > 0.19f, "path-repeat", "%s: path visits node %zu again", S, j);
  if (cl.empty() && p.expand > 0 && p.children > 0 && p.step >= 0.5f && p.weight > 0 && (goal - pos).norm() > 3 * p.step && vel.norm() < 0.1) CK((path[0] - goal).norm() < (pos - goal).norm(), "progress", "%s: no obstacle, but the path ends at (%g %g %g), no closer to the goal", S, path[0].x(), path[0].y(), path[0].z());
  vc::outcome(vc::mix(vc::mix(N, maxd), vc::hashf(path[0].x() + 3 * path[0].y() + 7 * path[0].z())));
}
int main(int argc, char** argv) {
  vc::init(argc, argv);
  auto& c = vc::ctx();
  uint64_t item = 0;
  costParameters dflt; dflt.yaw_cost_param = 3; dflt.pitch_cost_param = 25; dflt.velocity_cost_param = 6000; dflt.obstacle_cost_param = 8.5f;
  costParameters old;
  std::vector<Par> P = {{8, 10, 2, 15, 40, 35}, {4, 12, 1, 4, 30, 10}, {1, 6, 2, 15, 30, 35}, {20, 4, 0.3f, 12, 0, 35}, {3, 8, 5, 9, 60, 0}};
  std::vector<Par> Q = {{0, 5, 2, 15, 40, 35}, {8, 0, 2, 15, 40, 35}, {1, 1, 0.1f, 15, 40, 35}, {100, 2, 2, 15, 90, 35}, {8, 40, 2, 15, 40, 35}, {2, 30, 0, 15, 40, 35}, {5, 60, 1, 3, 20, 50}};
  std::vector<V3> B = {V3(0, 4, 0), V3(0, 8, 0), V3(3, 4, 0), V3(-3, 5, 1), V3(0, -4, 0), V3(1, 2, 2), V3(6, 0, 0), V3(0, 3, -2)};
  std::vector<V3> G = {V3(0, 20, 0), V3(15, 10, 3), V3(-12, -9, -2), V3(0, 1, 0), V3(0, 0, 12), V3(0, 0, 0), V3(2, 0, 0)};
  std::vector<V3> W = {V3(0, 0, 0), V3(0, 2, 0), V3(-1.5f, 0, 0.5f)};
  const V3 pos(10, -5, 5);
  V3 wide(2, 0.5f, 2), small(0.5f, 0.5f, 0.5f);
  struct Sc { std::string n; pcl::PointCloud<pcl::PointXYZI> cl; };
  std::vector<Sc> S; S.push_back({"no obstacle", {}});
  auto nm = [](const V3& v, const char* k) { char b[80]; snprintf(b, sizeof b, "%s at (%g %g %g) ", k, v.x(), v.y(), v.z()); return std::string(b); };
  for (auto& b : B) { Sc s; s.n = nm(b, "wall"); block(s.cl, pos + b, wide); S.push_back(s); Sc r; r.n = nm(b, "box"); block(r.cl, pos + b, small); S.push_back(r); }
  for (size_t i = 0; i < B.size(); i++) for (size_t j = i + 1; j < B.size(); j++) { Sc s; s.n = nm(B[i], "wall") + nm(B[j], "box"); block(s.cl, pos + B[i], wide); block(s.cl, pos + B[j], small); S.push_back(s); }
  { Sc s; s.n = "closed room"; for (int k = 0; k < 4; k++) block(s.cl, pos + V3(k == 0 ? 3 : k == 1 ? -3 : 0, k == 2 ? 3 : k == 3 ? -3 : 0, 0), V3(k < 2 ? 0 : 3, k < 2 ? 3 : 0, 2)); S.push_back(s); }
  for (size_t s = 0; s < S.size(); s++) for (size_t g = 0; g < G.size(); g++) for (size_t w = 0; w < W.size(); w++) { if (!vc::mine(item++)) continue;
    for (size_t k = 0; k < P.size(); k++) { if (!c.thorough && s > 17 && (s + g + w + k) % 3) continue;
      V3 goal = pos + G[g], line = (s + g) % 2 ? goal : V3(goal + V3(-4, 4, 0)); tree(S[s].cl, S[s].n, pos, W[w], goal, line, k % 2 ? old : dflt, P[k], (s + g + w) % 2); }
    if (s < 3 || s % 7 == 0 || c.thorough) { const Par& q = Q[(s + g + w) % Q.size()]; tree(S[s].cl, S[s].n, pos, W[w], pos + G[g], pos + G[g], dflt, q, 0); } }
  for (size_t k = 0; k < Q.size(); k++) for (size_t s = 0; s < S.size(); s += 5) { if (!vc::mine(item++)) continue; tree(S[s].cl, S[s].n, pos, W[0], pos + G[k % G.size()], pos + G[0], dflt, Q[k], 0); }
  vc::sample("wall at (0 4 0), goal (0 20 0), children 8 expansions 10");
  return vc::done();
}
