// C29: the global planner's search on every small obstacle pattern, compared with breadth first and Dijkstra searches over the reference risk.
#include "vc.h"
#include "gpref.h"
using namespace gr;
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
static const float SOME = 0.4f, OCC = 3.5f;
static const int NB[10][3] = {{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}, {1, 1, 0}, {-1, 1, 0}, {1, -1, 0}, {-1, -1, 0}};
struct Cfg {
  std::string type = "Node"; double flow = 0, scale = 1; int minalt = 1, maxalt = 3, iters = 4000; double smooth = 10, minov = 1.03, maxov = 2.0, rf = 500, maxrisk = 0.2, up = 3, down = 1; bool rh = true, sh = true, yaw = true, exact = false, bounded = true;
};
struct Prob { std::vector<Vox> vox; double pos[3]; double vel[3] = {0, 0, 0}; double goal[3]; double radius = 1; Cfg f; std::string name; };
static std::string PS(const std::vector<I3>& p) { std::string s; for (auto& k : p) s += "(" + std::to_string(k[0]) + " " + std::to_string(k[1]) + " " + std::to_string(k[2]) + ") "; return s; }
struct Ref {
  RefMap m; Cfg f; std::map<std::pair<I3, I3>, double> steps;
  double step(const I3& a, const I3& b) { auto it = steps.find({a, b}); if (it != steps.end()) return it->second; return steps[{a, b}] = m.step(a, b); }
  double zp(int z) const { return f.scale * (z + 0.5); }
  bool zok(int z) const { return zp(z) < f.maxalt && zp(z) > f.minalt; }
  bool legal(const I3& a, const I3& b) { return zok(b[2]) && step(a, b) < f.maxrisk; }
  double dist(const I3& a, const I3& b) const { double dz = f.scale * (b[2] - a[2]); return f.scale * std::hypot(b[0] - a[0], b[1] - a[1]) + (dz > 0 ? f.up * dz : -f.down * dz); }
  double manh(const I3& a, const I3& b) const { return f.scale * (std::abs(a[0] - b[0]) + std::abs(a[1] - b[1]) + std::abs(a[2] - b[2])); }
  std::set<I3> reach(const I3& s, size_t cap) { std::set<I3> R{s}; std::deque<I3> q{s}; while (!q.empty() && R.size() < cap) { I3 u = q.front(); q.pop_front(); for (auto& d : NB) { I3 v{u[0] + d[0], u[1] + d[1], u[2] + d[2]}; if (!R.count(v) && legal(u, v)) { R.insert(v); q.push_back(v); } } } return R; }
  // last resort: cell by cell, up / down within the altitude limits
  bool old(const I3& s, const I3& t, bool d3, size_t cap) {
    std::set<I3> R{s}; std::deque<I3> q{s};
    while (!q.empty() && R.size() < cap) { I3 u = q.front(); q.pop_front(); if (u == t) return true; for (auto& d : NB) { if (d[2] && !d3) continue; I3 v{u[0] + d[0], u[1] + d[1], u[2] + d[2]}; if (d[2] > 0 && !(zp(v[2]) < f.maxalt)) continue; if (d[2] < 0 && !(zp(v[2]) > f.minalt)) continue; if (R.count(v) || (m.risk(v) > f.maxrisk && v != t)) continue; R.insert(v); q.push_back(v); } }
    return R.count(t);
  }
  bool fallback(const I3& s, const I3& t, size_t cap) {
    int a = 0; while (zp(a) < f.maxalt) a++; a--; while (!(zp(a) < f.maxalt)) a--;
    I3 as{s[0], s[1], a}, at{t[0], t[1], a};
    if ((as != s && m.risk(as) > f.maxrisk) || (at != t && m.risk(at) > f.maxrisk)) return false;
    return old(s, as, true, cap) && old(as, at, false, cap) && old(at, t, true, cap);
  }
  double dijkstra(const I3& s, const I3& t) {
    std::map<I3, double> D{{s, 0}}; std::set<std::pair<double, I3>> q{{0, s}};
    while (!q.empty()) { auto [d, u] = *q.begin(); q.erase(q.begin()); if (u == t) return d; if (d > D[u]) continue; for (auto& n : NB) { I3 v{u[0] + n[0], u[1] + n[1], u[2] + n[2]}; if (!legal(u, v)) continue; double nd = d + dist(u, v) + f.rf * step(u, v); auto it = D.find(v); if (it == D.end() || nd < it->second) { D[v] = nd; q.insert({nd, v}); } } }
    return INFINITY;
  }
  double turn(const I3& a, const I3& b, const I3& e) const {  // squared number of 45 degree turns, half a turn between horizontal and vertical
    int x1 = b[0] - a[0], y1 = b[1] - a[1], z1 = b[2] - a[2], x2 = e[0] - b[0], y2 = e[1] - b[1], z2 = e[2] - b[2];
    double r = ((z1 == 0) != (z2 == 0)) ? 0.5 : 0; if ((x1 || y1) && (x2 || y2)) r += std::fabs(std::atan2((double)(x1 * y2 - y1 * x2), (double)(x1 * x2 + y1 * y2))) / (M_PI / 4);
    return r * r;
  }
};
static void apply(GlobalPlanner& g, const Prob& p) {
  const Cfg& f = p.f; CELL_SCALE = f.scale;
  g.min_altitude_ = f.minalt; g.max_altitude_ = f.maxalt; g.max_iterations_ = f.iters; g.smooth_factor_ = f.smooth; g.neighbor_risk_flow_ = f.flow; g.min_overestimate_factor_ = f.minov; g.max_overestimate_factor_ = f.maxov; g.risk_factor_ = f.rf; g.max_cell_risk_ = f.maxrisk; g.up_cost_ = f.up; g.down_cost_ = f.down; g.use_risk_heuristics_ = f.rh; g.use_speedup_heuristics_ = f.sh; g.use_current_yaw_ = f.yaw; g.default_node_type_ = f.type;
}
static void run(const Prob& p) {
  auto& c = vc::ctx(); const Cfg& f = p.f;
  const std::string N = p.name + " type " + f.type + " flow " + std::to_string(f.flow); const char* n = N.c_str(); vc::cur("%s", n);
  GlobalPlanner g; apply(g, p); Ref R; R.f = f; R.m.scale = f.scale; R.m.flow = f.flow;
  g.updateFullOctomap(tree(f.scale, p.vox)); R.m.set(f.scale, p.vox);
  geometry_msgs::PoseStamped ps; ps.pose.position.x = p.pos[0]; ps.pose.position.y = p.pos[1]; ps.pose.position.z = p.pos[2]; ps.pose.orientation.w = 1; g.setPose(ps);
  g.curr_vel_.x = p.vel[0]; g.curr_vel_.y = p.vel[1]; g.curr_vel_.z = p.vel[2];
  GoalCell goal(p.goal[0], p.goal[1], p.goal[2], p.radius); g.setGoal(goal);
  auto cell = [&](double sg) { I3 i; for (int t = 0; t < 3; t++) i[t] = (int)std::floor((p.pos[t] + sg * 0.5 * p.vel[t]) / f.scale); return i; };
  I3 s = cell(1), par = f.yaw ? cell(-1) : s, cur = cell(0), t = ix(goal);
  std::vector<Cell> old_path = g.curr_path_;
  bool found = g.getGlobalPath(); c.transitions++;
  CK(g.max_iterations_ == f.iters, "iterations_changed", "%s: the configured number of iterations becomes %d", n, g.max_iterations_);
  double goal_risk = R.m.risk(t); bool blocked_cur = R.m.single(cur) > 0.5;
  CK(g.current_cell_blocked_ == blocked_cur, "current_blocked", "%s: current cell blocked %d", n, g.current_cell_blocked_);
  if (goal_risk > f.maxrisk) { CK(!found && g.goal_is_blocked_ && g.curr_path_ == old_path, "blocked_goal", "%s: goal of risk %g: found %d", n, goal_risk, found); vc::outcome(1); delete g.octree_; return; }
  if (blocked_cur) { CK(!found && !g.goal_is_blocked_ && g.curr_path_ == old_path, "blocked_start", "%s: occupied start: found %d", n, found); vc::outcome(2); delete g.octree_; return; }
  CK(g.goal_is_blocked_ == !found, "blocked_flag", "%s: found %d, goal blocked %d", n, found, g.goal_is_blocked_);
  const size_t CAP = 3000; bool main = false;
  if (f.bounded) { auto S = R.reach(s, CAP); for (auto& k : S) main |= R.manh(k, t) < p.radius / 2; }
  bool speed = f.type == "SpeedNode" && f.maxov <= 1.5;  // every search of this configuration moves with the vehicle's speed
  if (f.bounded && f.iters >= 2000 && !speed) { bool fb = !main && R.fallback(s, t, CAP); CK(found == (main || fb), found ? "path_found_against_rules" : "path_not_found", "%s: reachable %d, by the last resort %d, found %d", n, main, fb, found); }
  if (!found) { CK(g.curr_path_ == old_path, "path_without_success", "%s", n); vc::outcome(3); delete g.octree_; return; }
  std::vector<I3> P; for (auto& k : g.curr_path_) P.push_back(ix(k)); const std::string W = PS(P); const char* w = W.c_str();
  uint64_t hh = 4; for (auto& k : P) hh = vc::mix(hh, (k[0] + 50) * 10000 + (k[1] + 50) * 100 + k[2] + 50); vc::outcome(hh); c.states++;
  CK(P.size() >= 2 && P[0] == par && P[1] == s, "path_start", "%s: path %s does not start with (%d %d %d) (%d %d %d)", n, w, par[0], par[1], par[2], s[0], s[1], s[2]);
  if (P.size() < 2) { delete g.octree_; return; }
  CK(R.manh(P.back(), t) < p.radius / 2 || P.back() == t, "path_end", "%s: path %s ends %g from the goal", n, w, R.manh(P.back(), t));
  bool ten = true, sp = true, legal = true, cells = true; double dist = 0, risk = 0, cost = 0, smooth = 0; bool blk = false;
  for (size_t i = 2; i < P.size(); i++) {
    I3 d{P[i][0] - P[i - 1][0], P[i][1] - P[i - 1][1], P[i][2] - P[i - 1][2]}, q{P[i - 1][0] - P[i - 2][0], P[i - 1][1] - P[i - 2][1], P[i - 1][2] - P[i - 2][2]}, x{d[0] - q[0], d[1] - q[1], d[2] - q[2]};
    bool t10 = false, tsp = x == I3{0, 0, 0}; for (auto& b : NB) { t10 |= d == I3{b[0], b[1], b[2]}; if (x == I3{b[0], b[1], b[2]}) tsp = true; }
    double L = f.scale * std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]); if (!(x == I3{0, 0, 0}) && !(L < 5.0)) tsp = false; if (L == 0) t10 = tsp = false;
    ten &= t10; sp &= tsp;
    CK(R.zp(P[i][2]) < f.maxalt || R.zp(s[2]) >= f.maxalt, "path_too_high", "%s: path %s exceeds the maximum altitude %d", n, w, f.maxalt);
    CK(R.zp(P[i][2]) > f.minalt || R.zp(s[2]) <= f.minalt, "path_too_low", "%s: path %s falls below the minimum altitude %d", n, w, f.minalt);
    legal &= R.legal(P[i - 1], P[i]); cells &= (R.m.risk(P[i]) <= f.maxrisk + 1e-9) || P[i] == t;
    double r = R.step(P[i - 1], P[i]), tu = R.turn(P[i - 2], P[i - 1], P[i]), e = R.dist(P[i - 1], P[i]);
    bool early = f.scale * std::sqrt(std::pow(P[i - 1][0] - cur[0], 2) + std::pow(P[i - 1][1] - cur[1], 2) + std::pow(P[i - 1][2] - cur[2], 2)) < 3 && std::sqrt(p.vel[0] * p.vel[0] + p.vel[1] * p.vel[1] + p.vel[2] * p.vel[2]) > 1;
    dist += e; risk += f.rf * r; smooth += f.smooth * tu; cost += e + f.rf * r + f.smooth * tu * (early ? 2 : 1); blk |= r > f.maxrisk;
  }
  CK(ten || (f.type == "SpeedNode" && sp), "path_not_connected", "%s: path %s has a step between cells which are no neighbours", n, w);
  // a path of the main search has legal steps only; the last resort path has cells of permitted risk only
  CK(f.bounded && !main && !speed ? cells : legal || (speed && cells && ten), "path_risk", "%s: path %s has a step which is too risky", n, w);
  const PathInfo& I = g.curr_path_info_;
  CK(vc::near(I.dist, dist, 1e-6) && vc::near(I.risk, risk, 1e-6) && vc::near(I.smoothness, smooth, 1e-6) && vc::near(I.cost, cost, 1e-6) && I.is_blocked == blk, "path_info", "%s: path %s: distance %g risk %g smoothness %g cost %g blocked %d, expected %g %g %g %g %d", n, w, I.dist, I.risk, I.smoothness, I.cost, I.is_blocked, dist, risk, smooth, cost, blk);
  if (f.exact && main) { double best = R.dijkstra(s, t); CK(vc::near(cost, best, 1e-6), "path_not_cheapest", "%s: path %s costs %g, the cheapest %g", n, w, cost, best); }
  auto msg = g.getPathMsg(); bool same = msg.poses.size() == P.size(); for (size_t i = 0; same && i < P.size(); i++) { auto& q = msg.poses[i].pose.position; same &= vc::near(q.x, f.scale * (P[i][0] + .5), 1e-9) && vc::near(q.y, f.scale * (P[i][1] + .5), 1e-9) && vc::near(q.z, f.scale * (P[i][2] + .5), 1e-9); if (i + 1 < P.size() && (P[i + 1][0] != P[i][0] || P[i + 1][1] != P[i][1])) { double y = tf::getYaw(msg.poses[i].pose.orientation), e = std::atan2((double)P[i + 1][1] - P[i][1], (double)P[i + 1][0] - P[i][0]); same &= std::fabs(std::remainder(y - e, 2 * M_PI)) < 1e-6; } }
  CK(same && msg.header.frame_id == g.frame_id_, "path_message", "%s: message of path %s differs", n, w);
  auto rm = g.getPathWithRiskMsg(); bool rs = rm.risks.size() == P.size() && rm.poses.size() == P.size(); for (size_t i = 0; rs && i < P.size(); i++) rs &= vc::near(rm.risks[i], R.m.risk(P[i]), 1e-5);
  CK(rs, "risk_message", "%s: risks published for path %s differ", n, w);
  delete g.octree_;
}
static void walls(std::vector<Vox>& v, int W, int H, int z0, int z1, double s = 1) { for (int z = z0; z <= z1; z++) for (int x = -1; x <= W; x++) for (int y = -1; y <= H; y++) if (x < 0 || y < 0 || x == W || y == H) v.push_back({(x + .5) * s, (y + .5) * s, (z + .5) * s, OCC}); }
static Prob mkp(const I3& s, const I3& t, double sc = 1) { Prob p; for (int i = 0; i < 3; i++) { p.pos[i] = sc * (s[i] + 0.5); p.goal[i] = sc * (t[i] + 0.5); } p.f.scale = sc; return p; }
static const char* TY[] = {"Node", "NodeWithoutSmooth", "SpeedNode"};
int main(int argc, char** argv) {
  vc::init(argc, argv); if (!freopen("/dev/null", "w", stdout)) return 9;
  auto& c = vc::ctx(); uint64_t it = 0; char b[200];
  // every pattern of full columns on 4x3 (both heights), start and goal in opposite corners
  for (int pat = 0; pat < 4096; pat++) for (int ty = 0; ty < 3; ty++) for (int k = 0; k < 2; k++) {
    if (!vc::mine(it++)) continue;
    Prob p = mkp({0, 0, 1}, {3, 2, k ? 1 : 2}); walls(p.vox, 4, 3, 1, 2); for (int i = 0; i < 12; i++) if (pat >> i & 1) for (int z = 1; z <= 2; z++) p.vox.push_back({i % 4 + .5, i / 4 + .5, z + .5, OCC});
    p.f.type = TY[ty]; if (k) { p.vel[0] = 2; p.pos[0] = 0.5; }  // the start is a cell ahead, the vehicle keeps moving
    if (k && ty == 2 && pat % 3 == 0) p.f.maxov = 1.4;
    if (pat % 7 == 0) p.f.yaw = false;
    snprintf(b, sizeof b, "columns %03x goal %d", pat, k); p.name = b; run(p);
  }
  // every pattern of single cells on 3x2x2 with an altitude band of two or three cells
  for (int pat = 0; pat < 4096; pat++) for (int ty = 0; ty < 3; ty++) {
    if (!vc::mine(it++)) continue;
    Prob p = mkp({0, 0, 1}, {2, 1, 2}); p.f.maxalt = pat % 2 ? 3 : 4; walls(p.vox, 3, 2, 1, 3); for (int i = 0; i < 12; i++) if (pat >> i & 1) p.vox.push_back({i % 3 + .5, i / 3 % 2 + .5, 1 + i / 6 + .5, OCC});
    p.f.type = TY[ty]; snprintf(b, sizeof b, "cells %03x", pat); p.name = b; run(p);
  }
  // cheapest paths: every assignment of unknown / possibly occupied / occupied to 3x3 columns
  for (int pat = 0; pat < 19683; pat++) for (int ty = 0; ty < 2; ty++) {
    if (!vc::mine(it++)) continue; if (!c.thorough && ty == 0 && pat % 4) continue;
    Prob p = mkp({0, 0, 1}, {2, 2, 1}); walls(p.vox, 3, 3, 1, 2); int q = pat; for (int i = 0; i < 9; i++, q /= 3) if (q % 3) p.vox.push_back({i % 3 + .5, i / 3 + .5, 1.5, q % 3 == 1 ? SOME : OCC});
    if (pat % 5 == 1) p.vox.push_back({1.5, 1.5, 2.5, OCC}); if (pat % 5 == 2) { p.f.rf = 20; p.f.up = 7; } if (pat % 5 == 3) p.f.maxrisk = 0.4;
    p.f.type = TY[ty]; p.f.exact = true; p.f.rh = p.f.sh = false; p.f.smooth = 0; p.f.minov = p.f.maxov = 1.0;
    snprintf(b, sizeof b, "risks %d", pat); p.name = b; run(p);
  }
  // influence of obstacles on the cells around: a larger room, every pair of obstacle columns
  for (int o1 = 0; o1 < 35; o1++) for (int o2 = 0; o2 < 35; o2++) for (int ty = 0; ty < 3; ty++) {
    if (!vc::mine(it++) || o2 < o1 || ((o1 + o2) % (c.thorough ? 1 : 3))) continue;
    Prob p = mkp({1, 3, 2}, {7, 3, 2}); p.f.maxalt = 5; p.f.flow = (o1 + o2) % 2 ? 1.0 : 0.3; p.f.minalt = 1; walls(p.vox, 9, 7, 1, 5); for (int o : {o1, o2}) for (int z = 1; z <= (o % 2 ? 4 : 3); z++) p.vox.push_back({2 + o % 5 + .5, o / 5 + .5, z + .5, OCC});
    for (int x = 0; x < 9; x++) for (int y = 0; y < 7; y++) p.vox.push_back({x + .5, y + .5, 5.5, OCC});
    p.f.type = TY[ty]; p.f.maxrisk = 0.45; if (ty == 2) { p.vel[0] = 1.5; } snprintf(b, sizeof b, "pair %d %d", o1, o2); p.name = b; run(p);
  }
  // limits: starts and goals outside of the band, radii, few iterations, start in the goal, cell sizes, all overestimate settings
  for (int sz = 0; sz <= 6; sz++) for (int gz = 0; gz <= 6; gz++) for (int ty = 0; ty < 3; ty++) for (int band = 0; band < 4; band++) for (int sci = 0; sci < 3; sci++) {
    if (!vc::mine(it++)) continue; double sc = sci == 0 ? 1 : sci == 1 ? 0.5 : 2;
    Prob p = mkp({1, 1, sz}, {3, 2, gz}, sc); p.f.minalt = band == 0 ? 0 : band == 1 ? 1 : band == 2 ? 2 : 3; p.f.maxalt = band == 0 ? 2 : band == 1 ? 4 : band == 2 ? 5 : 4; walls(p.vox, 5, 4, 1, 12, sc);
    if ((sz + gz) % 2) for (int y = 0; y < 4; y++) for (int z = 1; z <= 3; z++) p.vox.push_back({2.5 * sc, (y + .5) * sc, (z + .5) * sc, OCC});
    p.f.type = TY[ty]; snprintf(b, sizeof b, "start height %d goal height %d band %d..%d scale %g", sz, gz, p.f.minalt, p.f.maxalt, sc); p.name = b; run(p);
  }
  for (int gx = 0; gx < 4; gx++) for (int gy = 0; gy < 3; gy++) for (double rad : {0.0, 1.0, 2.5, 5.0, 10.0}) for (int iters : {0, 1, 2, 5, 20, 4000}) for (double mo : {1.0, 1.03, 1.5}) for (double xo : {1.0, 1.4, 2.0, 5.0}) for (int ty = 0; ty < 3; ty++) {
    if (!vc::mine(it++)) continue; if (!c.thorough && (gx + gy + (int)rad + iters + ty + (int)(10 * mo)) % 3) continue;
    Prob p = mkp({0, 0, 1}, {gx, gy, 1}); walls(p.vox, 4, 3, 1, 2); p.vox.push_back({1.5, 1.5, 1.5, OCC}); p.radius = rad; p.f.iters = iters; p.f.minov = mo; p.f.maxov = xo; p.f.type = TY[ty]; p.f.bounded = iters >= 2000 && mo <= xo;
    snprintf(b, sizeof b, "goal %d %d radius %g iterations %d overestimate %g..%g", gx, gy, rad, iters, mo, xo); p.name = b; run(p);
  }
  // unbounded unknown space, with and without obstacles
  for (int w = 0; w < 8; w++) for (int ty = 0; ty < 3; ty++) for (int g = 0; g < 4; g++) {
    if (!vc::mine(it++)) continue;
    Prob p = mkp({0, 0, 3}, {g == 0 ? 12 : g == 1 ? 3 : 0, g == 2 ? 15 : g == 1 ? -9 : 1, g == 3 ? 7 : 3}); p.f.bounded = false; p.f.flow = 1; p.f.maxalt = 10; p.f.iters = 2000; p.f.type = TY[ty]; if (w & 1) p.vel[1] = 2;
    if (w & 2) for (int y = -4; y <= 4; y++) for (int z = 1; z <= 6; z++) p.vox.push_back({4.5, y + .5, z + .5, OCC}); if (w & 4) p.f.flow = 0.5;
    snprintf(b, sizeof b, "open space %d goal %d", w, g); p.name = b;
    // the last resort path of an unreached goal is judged by its cells
    run(p);
  }
  vc::sample("columns 3a5 on 4x3 with start (0 0 1) and goal (3 2 2) for each node type; start above the maximum altitude; iterations 0");
  return vc::done();
}
