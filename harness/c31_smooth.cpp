// C31: simplification and smoothing of every short lattice path over several maps, against the rule and additive risk.
#include "vc.h"
#include "gpref.h"
using namespace gr;
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
static std::string PS(const std::vector<I3>& p) { std::string s; for (auto& k : p) s += "(" + std::to_string(k[0]) + " " + std::to_string(k[1]) + " " + std::to_string(k[2]) + ") "; return s; }
static GlobalPlanner* g; static RefMap m; static double sf, rf;
static std::map<std::pair<I3, I3>, double> memo;
static double risk(const I3& a, const I3& b) { auto it = memo.find({a, b}); if (it != memo.end()) return it->second; return memo[{a, b}] = m.step(a, b); }
static double turn(const I3& a, const I3& b, const I3& e) {
  int x1 = b[0] - a[0], y1 = b[1] - a[1], z1 = b[2] - a[2], x2 = e[0] - b[0], y2 = e[1] - b[1], z2 = e[2] - b[2];
  double r = ((z1 == 0) != (z2 == 0)) ? 0.5 : 0; if ((x1 || y1) && (x2 || y2)) r += std::fabs(std::atan2((double)(x1 * y2 - y1 * x2), (double)(x1 * x2 + y1 * y2))) / (M_PI / 4);
  return r * r;
}
// cost of the step b->e after a->b; far from the vehicle, so that turns count once
static double cost(const I3& a, const I3& b, const I3& e) { double dz = e[2] - b[2]; return std::hypot(e[0] - b[0], e[1] - b[1]) + (dz > 0 ? g->up_cost_ * dz : -g->down_cost_ * dz) + rf * risk(b, e) + sf * turn(a, b, e); }
static double total(const std::vector<I3>& p) { double r = 0; for (size_t i = 2; i < p.size(); i++) if (p[i] != p[i - 1]) r += risk(p[i - 1], p[i]); return r; }
static const int MV[6][3] = {{1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 1, 0}, {2, 0, 0}};
static void one(const std::vector<I3>& P, double margin, int iters, bool dec) {
  auto& c = vc::ctx(); c.transitions++;
  std::vector<Cell> in; for (auto& k : P) in.push_back(mk(k));
  std::vector<Cell> keep = in; auto out = simplifyPath(g, in, margin, (double)iters, dec);
  std::vector<I3> Q; for (auto& k : out) Q.push_back(ix(k));
  const std::string A = PS(P) + "margin " + std::to_string(margin) + " passes " + std::to_string(iters) + " -> " + PS(Q); const char* a = A.c_str(); vc::cur("%s", a);
  CK(in == keep, "input_changed", "%s", a);
  if (P.size() < 3) { CK(Q == P, "short_path_changed", "%s", a); return; }
  if (dec) { CK(Q.size() >= 2 && Q[Q.size() - 1] == Q[Q.size() - 2], "no_stop_at_end", "%s", a); Q.pop_back(); }
  // endpoints, the start and its parent
  CK(Q.size() >= 2 && Q[0] == P[0] && Q[1] == P[1] && Q.back() == P.back(), "endpoints", "%s", a);
  size_t j = 0; for (size_t i = 0; i < P.size() && j < Q.size(); i++) if (P[i] == Q[j]) j++;
  CK(j == Q.size(), "not_a_part", "%s: not a part of the path", a);
  // the number of passes: a pass drops at most every second point
  size_t least = P.size(); for (int i = 0; i < iters && least > 2; i++) { size_t d = (least - 2) / 2; if (!d) break; least -= d; }
  CK(Q.size() >= least, "too_many_passes", "%s", a);
  double f = 1; for (int i = 0; i < std::min(iters, 8); i++) f *= std::max(1.0, margin); if (margin <= 1) f = 1;
  CK(total(Q) <= total(P) * f + 1e-9, "risk_raised", "%s: risk %g instead of %g", a, total(Q), total(P));
  // the rule, pass by pass
  std::vector<I3> R = P;
  for (int k = 0; k < iters; k++) {
    std::vector<I3> S{R[0], R[1]}; size_t i = 3; bool tie = false;
    for (; i < R.size(); i += 2) {
      double cu = cost(R[i - 3], R[i - 2], R[i - 1]) + cost(R[i - 2], R[i - 1], R[i]), cn = cost(R[i - 3], R[i - 2], R[i]), ru = risk(R[i - 2], R[i - 1]) + risk(R[i - 1], R[i]), rn = risk(R[i - 2], R[i]);
      if (std::fabs(cn - margin * cu) < 1e-6 * std::max(1.0, cn) || std::fabs(rn - margin * ru) < 1e-6 * std::max(1e-3, rn)) tie = true;
      if (cn > margin * cu || rn > margin * ru) S.push_back(R[i - 1]);
      S.push_back(R[i]);
    }
    if (i == R.size()) S.push_back(R[i - 1]);
    if (tie) return;  // rounding decides
    if (S.size() == R.size()) break; R = S;
  }
  CK(R == Q, "simplified_otherwise", "%s expected %s", a, PS(R).c_str());
  vc::outcome(vc::mix(P.size() * 100 + Q.size(), vc::hashf(total(Q))));
}
static void smooth(const std::vector<I3>& P) {
  auto& c = vc::ctx(); c.transitions++; const std::string A = PS(P); const char* a = A.c_str(); vc::cur("smooth %s", a);
  std::vector<Cell> in; for (auto& k : P) in.push_back(mk(k));
  auto path = g->getPathMsg(in); auto out = smoothPath(path); size_t n = path.poses.size();
  auto pos = [](const geometry_msgs::PoseStamped& q) { return std::array<double, 3>{q.pose.position.x, q.pose.position.y, q.pose.position.z}; };
  auto nearp = [](const std::array<double, 3>& x, const std::array<double, 3>& y) { return std::fabs(x[0] - y[0]) + std::fabs(x[1] - y[1]) + std::fabs(x[2] - y[2]) < 1e-9; };
  CK(out.header.frame_id == path.header.frame_id, "smooth_frame", "%s", a);
  if (n < 3) { bool same = out.poses.size() == n; for (size_t i = 0; same && i < n; i++) same &= nearp(pos(out.poses[i]), pos(path.poses[i])); CK(same, "smooth_short", "%s", a); }
  else {
    CK(nearp(pos(out.poses.front()), pos(path.poses.front())) && nearp(pos(out.poses.back()), pos(path.poses.back())), "smooth_endpoints", "%s", a);
    // every point lies on the curve between two midpoints: inside of the triangle of a corner
    size_t per = (out.poses.size() - 2) / (n - 2); bool ok = per >= 2 && per * (n - 2) + 2 == out.poses.size(); CK(ok, "smooth_size", "%s: %zu points", a, out.poses.size());
    for (size_t k = 0; ok && k < n - 2; k++) {
      auto p0 = pos(path.poses[k]), p1 = pos(path.poses[k + 1]), p2 = pos(path.poses[k + 2]); std::array<double, 3> u, v; for (int t = 0; t < 3; t++) { u[t] = (p0[t] + p1[t]) / 2; v[t] = (p1[t] + p2[t]) / 2; }
      for (size_t q = 0; q < per; q++) { double t = (double)q / (per - 1); std::array<double, 3> e; for (int d = 0; d < 3; d++) e[d] = (1 - t) * (1 - t) * u[d] + 2 * t * (1 - t) * p1[d] + t * t * v[d]; auto got = pos(out.poses[1 + k * per + q]); CK(nearp(got, e), "smooth_point", "%s: point %zu of corner %zu is (%g %g %g), expected (%g %g %g)", a, q, k, got[0], got[1], got[2], e[0], e[1], e[2]); CK(std::isfinite(out.poses[1 + k * per + q].pose.orientation.w), "smooth_orientation", "%s", a); }
    }
  }
  auto cor = filterPathCorners(path.poses); std::vector<size_t> want; for (size_t i = 0; i < n; i++) { bool corner = i == 0 || i + 1 == n; if (!corner) for (int t = 0; t < 3; t++) corner |= P[i + 1][t] - P[i][t] != P[i][t] - P[i - 1][t]; if (corner) want.push_back(i); }
  bool same = cor.size() == want.size(); for (size_t i = 0; same && i < want.size(); i++) same &= nearp(pos(cor[i]), pos(path.poses[want[i]])); CK(same, "corners", "%s: %zu corners instead of %zu", a, cor.size(), want.size());
  double len = 0, en = 0; for (size_t i = 1; i < n; i++) { double d = 0; for (int t = 0; t < 3; t++) d += std::pow(P[i][t] - P[i - 1][t], 2); len += std::sqrt(d); en += std::sqrt(d) + 3 * std::max(0, P[i][2] - P[i - 1][2]); }
  CK(vc::near(pathLength(path), len, 1e-9) && vc::near(pathEnergy(path, 3.0), en, 1e-9), "path_length", "%s: length %g energy %g", a, pathLength(path), pathEnergy(path, 3.0));
}
int main(int argc, char** argv) {
  vc::init(argc, argv); auto& c = vc::ctx();
  const int L = c.thorough ? 8 : 7;
  GlobalPlanner gp; g = &gp; gp.curr_pos_.x = 500; uint64_t it = 0;
  struct S { const char* n; std::vector<Vox> v; double flow, rf, sf; };
  std::vector<Vox> wall, spots; for (int y = -3; y <= 1; y++) for (int z = 1; z < 6; z++) wall.push_back({2.5, y + .5, z + .5, 3.5f}); for (int i = 0; i < 6; i++) spots.push_back({i + .5, (i * 2) % 4 + .5, 2.5, i % 2 ? 0.4f : 3.5f});
  for (auto& s : std::vector<S>{{"unknown", {}, 1, 500, 20}, {"wall", wall, 1, 500, 20}, {"wall, cells only", wall, 0, 500, 0}, {"spots", spots, 0, 100, 10}, {"wall, risk is free", wall, 0.5, 0, 20}, {"spots, risk is cheap", spots, 0, 2, 5}}) {
    memo.clear(); gp.updateFullOctomap(tree(1.0, s.v)); m.set(1.0, s.v); m.flow = gp.neighbor_risk_flow_ = s.flow; gp.risk_factor_ = rf = s.rf; gp.smooth_factor_ = sf = s.sf; gp.risk_cache_.clear(); m.cache.clear();
    for (int n = 0; n <= L; n++) {
      uint64_t tot = 1; for (int i = 1; i < n; i++) tot *= 6;
      for (uint64_t h = 0; h < tot; h++) {
        if (!vc::mine(it++)) continue;
        if (n == L && h % (c.thorough ? 3 : 5)) continue;
        std::vector<I3> P; I3 k{0, 0, 2}; uint64_t q = h; for (int i = 0; i < n; i++) { P.push_back(k); const int* d = MV[q % 6]; q /= 6; for (int t = 0; t < 3; t++) k[t] += d[t]; } c.states++;
        for (double margin : {1.01, 1.0, 0.8, 0.0, 1.5, 2.0}) for (int iters : {1, 0, 2, 100}) { if (n >= 6 && (h / 5 + iters + (int)(margin * 10)) % 3) continue; one(P, margin, iters, (h + iters) % 2); }
        if (s.v.empty()) smooth(P);
      }
    }
  }
  vc::sample("paths of up to %d points with 6 kinds of steps over 6 maps, margins 0 to 2 and 0 to 100 passes", L);
  return vc::done();
}
