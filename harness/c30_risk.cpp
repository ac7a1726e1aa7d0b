// C30: occupancy and risk of the global planner for every small map, every height and every short history of map updates.
#include "vc.h"
#include "gpref.h"
using namespace gr;
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
static const float FREE = -2.0f, SOME = 0.4f, OCC = 3.5f;
static void load(GlobalPlanner& g, RefMap& m, double res, const std::vector<Vox>& v) { g.updateFullOctomap(tree(res, v)); m.set(res, v); }
static void drop(GlobalPlanner& g) { delete g.octree_; g.octree_ = nullptr; }

static void heights() {
  auto& c = vc::ctx(); uint64_t it = 0;
  const float LO[] = {-3.5f, -2.0f, -0.4f, -1e-3f, 0.0f, 1e-3f, 0.2f, 0.85f, 2.0f, 3.5f};
  for (double scale : {1.0, 0.5, 2.0}) for (double pen : {0.005, 0.0, 0.01}) for (int z = -4; z <= 60; z++) {
    if (!vc::mine(it++)) continue;
    CELL_SCALE = scale; GlobalPlanner g; RefMap m; m.scale = scale; m.penalty = g.explore_penalty_ = pen; g.setRobotRadius(0.5);
    Cell k = mk(3, -2, z); I3 i{3, -2, z}; double last = -1; vc::cur("cell at height index %d, scale %g", z, scale);
    CK(g.getSingleCellRisk(k) == 1.0 && g.isOccupied(k) && vc::near(g.getRisk(k), 8.0, 1e-9), "no_map", "without a map cell %s has risk %g", k.asString().c_str(), g.getRisk(k));
    load(g, m, scale, {}); double unk = g.getSingleCellRisk(k);
    CK(vc::near(unk, m.single(i), 1e-9), "unknown", "unknown cell %s at scale %g: %g instead of %g", k.asString().c_str(), scale, unk, m.single(i));
    CK(vc::near(g.getAltPrior(k), m.prior(z), 1e-12), "prior", "prior of %s at scale %g is %g instead of %g", k.asString().c_str(), scale, g.getAltPrior(k), m.prior(z));
    for (float lo : LO) for (int seen = 0; seen < 2; seen++) {
      g.occupied_.clear(); m.seen.clear(); load(g, m, scale, {{k.xPos(), k.yPos(), k.zPos(), lo}}); if (seen) { g.occupied_.insert(k); m.seen.insert(i); }
      double r = g.getSingleCellRisk(k), w = m.single(i); c.states++; vc::outcome(vc::hashf(r));
#define W "cell %s scale %g log-odds %g seen %d: single risk %g, expected %g", k.asString().c_str(), scale, lo, seen, r, w
      CK(vc::near(r, w, 1e-9) && r >= 0 && r <= 1.0 + 1e-9, "single_risk", W);
      CK(g.isOccupied(k) == (w > 0.5), "occupied", W);
      if (z >= 1 && !seen) { if (lo < 0) CK(r <= unk + 1e-12, "free_above_unknown", W); if (lo > 0) CK(r >= unk - 1e-12, "occupied_below_unknown", W); CK(r >= last - 1e-12, "not_monotone", W); last = r; }
      CK(vc::near(g.getRisk(k), m.risk(i), 1e-9), "risk", "cell %s scale %g log-odds %g seen %d: risk %g, expected %g", k.asString().c_str(), scale, lo, seen, g.getRisk(k), m.risk(i));
    }
    // heuristics for cells in and beyond the planning volume
    for (int gz = -4; gz <= 60; gz += (c.thorough ? 1 : 3)) { Cell t = mk(1, 1, gz); Node n(k, mk(2, -2, z)); double h = g.riskHeuristic(k, t), hh = g.getHeuristic(n, t), sm = g.smoothnessHeuristic(n, t), al = g.altitudeHeuristic(k, t), rc = g.riskHeuristicReverseCache(k, t); c.transitions++;
      CK(std::isfinite(h) && std::isfinite(hh) && std::isfinite(rc) && h >= -1e-9 && hh >= -1e-9 && sm >= 0 && vc::near(al, gz > z ? g.up_cost_ * (gz - z) : g.down_cost_ * (z - gz), 1e-9), "heuristic", "heuristic from %s to %s: %g, risk part %g", k.asString().c_str(), t.asString().c_str(), hh, h);
    }
    CK(g.riskHeuristic(k, k) == 0, "heuristic", "risk heuristic at the goal %s is %g", k.asString().c_str(), g.riskHeuristic(k, k));
    drop(g);
  }
  CELL_SCALE = 1;
}
// every assignment of unknown / free / possibly occupied / occupied to a cell and its six neighbours
static void neighbourhoods() {
  auto& c = vc::ctx();
  const int OFF[7][3] = {{0, 0, 0}, {1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}};
  const int N = 16384; static const int rank[4] = {1, 0, 2, 3};  // states: unknown, free, some, occ
  for (double flow : {1.0, 0.3, 0.0}) for (int base : {2, 8, 1}) {
    GlobalPlanner g; RefMap m; g.neighbor_risk_flow_ = m.flow = flow;
    auto vox = [&](int code) { std::vector<Vox> v; for (int i = 0; i < 7; i++) { int s = (code >> (2 * i)) & 3; if (s) v.push_back({OFF[i][0] + 0.5, OFF[i][1] + 0.5, base + OFF[i][2] + 0.5, s == 1 ? FREE : s == 2 ? SOME : OCC}); } return v; };
    std::vector<double> center(N, -1);
    for (int code = 0; code < N; code++) {
      // a shard checks its maps completely and, for the order, the centers of the maps one step away
      if (!vc::mine(code / 4)) continue;
      load(g, m, 1.0, vox(code)); c.states++; vc::cur("map %d flow %g base %d", code, flow, base);
      for (int x = -2; x <= 2; x++) for (int y = -2; y <= 2; y++) for (int z = base - 2; z <= base + 2; z++) { if (!(code % 5 == 0 || std::abs(x) + std::abs(y) + std::abs(z - base) <= 1)) continue;
        double r = g.getRisk(mk(x, y, z)), w = m.risk({x, y, z}); CK(vc::near(r, w, 1e-9), "risk_of_map", "map code %d at height %d, flow %g: risk of (%d %d %d) is %g, expected %g", code, base, flow, x, y, z, r, w); }
      center[code] = g.getRisk(mk(0, 0, base)); vc::outcome(vc::hashf(center[code]));
      CK(g.isNearWall(mk(0, 0, base)) == (m.single({1, 1, base}) > .5 || m.single({-1, 1, base}) > .5 || m.single({1, -1, base}) > .5 || m.single({-1, -1, base}) > .5), "near_wall", "map code %d", code);
    }
    if (vc::mine(0)) {
      for (int code = 0; code < N; code++) if (center[code] < 0) { g.updateFullOctomap(tree(1.0, vox(code))); center[code] = g.getRisk(mk(0, 0, base)); }
      for (int code = 0; code < N; code++) for (int i = 0; i < 7; i++) { int s = (code >> (2 * i)) & 3; for (int t = 0; t < 4; t++) if (rank[t] > rank[s]) { int o = (code & ~(3 << (2 * i))) | (t << (2 * i)); CK(center[o] >= center[code] - 1e-12, "not_monotone", "risk falls from %g to %g when cell %d of map %d at height %d turns from state %d to %d", center[code], center[o], i, code, base, s, t); } }
    }
    drop(g);
  }
}
// resolutions and robot sizes: the cells around which count
static void radii() {
  auto& c = vc::ctx(); uint64_t it = 0;
  for (double res : {1.0, 0.5, 0.25, 0.2, 2.0}) for (double rob : {0.5, 0.2, 1.0, 1.7}) for (double scale : {1.0, 0.5, 2.0}) for (int ob = 0; ob < 9; ob++) {
    if (!vc::mine(it++)) continue;
    CELL_SCALE = scale; GlobalPlanner g; RefMap m; m.scale = scale; m.robot = rob; g.setRobotRadius(rob); vc::cur("resolution %g robot %g scale %g obstacle %d", res, rob, scale, ob);
    if (m.radius(), std::ceil(rob / res) > 6 && ob) continue;
    // a robot size known before the first map
    std::vector<Vox> v; if (ob) v.push_back({0.1 + (ob % 3) * scale, 0.1 + (ob / 3) * scale, 4.1 * scale, OCC}); if (ob > 4) v.push_back({0.1 + res, 0.1, 4.1 * scale, FREE});
    load(g, m, res, v); c.states++;
    for (int x = -1; x <= 3; x++) for (int z = 1; z <= 6; z++) { double r = g.getRisk(mk(x, 1, z)), w = m.risk({x, 1, z}); CK(vc::near(r, w, 1e-9), "risk_radius", "resolution %g robot radius %g cell size %g obstacle %d: risk of (%d 1 %d) is %g, expected %g", res, rob, scale, ob, x, z, r, w); }
    for (auto& e : std::vector<I3>{{1, 0, 0}, {1, 1, 0}, {0, 0, 1}, {3, 0, 0}, {2, 1, 1}}) { I3 a{0, 0, 4}, b{e[0], e[1], 4 + e[2]}; double r = g.getRisk(Node(mk(b), mk(a))), w = m.step(a, b); CK(vc::near(r, w, 1e-9), "risk_of_step", "risk of the step from (0 0 4) to (%d %d %d) is %g, expected %g", b[0], b[1], b[2], r, w); bool leg = scale * (b[2] + .5) < g.max_altitude_ && scale * (b[2] + .5) > g.min_altitude_ && w < g.max_cell_risk_; CK(g.isLegal(Node(mk(b), mk(a))) == leg, "legal_step", "step to (%d %d %d) at scale %g: legal %d", b[0], b[1], b[2], scale, !leg); }
    drop(g);
  }
  CELL_SCALE = 1;
}
// histories of updates, undecodable messages, newly seen obstacles and queries
static void histories() {
  auto& c = vc::ctx();
  std::vector<Vox> A, B, D; for (int y = -1; y <= 2; y++) A.push_back({1.5, y + .5, 3.5, OCC}); A.push_back({0.5, 0.5, 3.5, FREE});
  for (int y = -1; y <= 2; y++) B.push_back({1.5, y + .5, 3.5, FREE}); B.push_back({0.5, 0.5, 3.5, SOME}); B.push_back({0.5, 0.5, 2.5, OCC});
  D.push_back({0.3, 0.3, 3.4, OCC}); D.push_back({0.8, 0.8, 3.8, FREE});
  const int NE = 8, L = c.thorough ? 6 : 5; uint64_t total = 1; for (int i = 0; i < L; i++) total *= NE;
  std::vector<I3> Q; for (int x = -1; x <= 2; x++) for (int y = 0; y <= 1; y++) for (int z = 0; z <= 5; z++) Q.push_back({x, y, z});
  static const char* NM[] = {"map A", "map B", "map at half resolution", "empty message", "message of another tree", "obstacle seen at (1 0 3)", "query", "undecodable then query"};
  for (uint64_t h = 0; h < total; h++) {
    if (!vc::mine(h / NE)) continue;
    int live0 = octomap::OcTree::live; std::string S;
    GlobalPlanner g; RefMap m; bool stale = false; uint64_t q = h; c.states++;
    for (int i = 0; i < L; i++) {
      int e = q % NE; q /= NE; S += std::string("[") + NM[e] + "] "; vc::cur("%s", S.c_str()); c.transitions++;
      auto before = g.octree_;
      switch (e) {
        case 0: load(g, m, 1.0, A); stale = false; break;
        case 1: load(g, m, 1.0, B); stale = false; break;
        case 2: load(g, m, 0.5, D); stale = false; break;
        case 3: case 7: g.updateFullOctomap(nullptr); break;
        case 4: g.updateFullOctomap(new octomap::ColorOcTree(0.3)); break;
        case 5: g.occupied_.insert(mk(1, 0, 3)); m.seen.insert({1, 0, 3}); m.cache.clear(); stale = true; break;
        default: break;
      }
      if (e == 3 || e == 4 || e == 7) CK(g.octree_ == before, "undecodable_changes_map", "%s", S.c_str());
      CK(octomap::OcTree::live - live0 == (m.has ? 1 : 0), "map_leak", "%s: %d maps are kept", S.c_str(), octomap::OcTree::live - live0);
      for (auto& k : Q) CK(vc::near(g.getSingleCellRisk(mk(k)), m.single(k), 1e-9), "single_after_update", "%s: single risk of (%d %d %d) is %g, expected %g", S.c_str(), k[0], k[1], k[2], g.getSingleCellRisk(mk(k)), m.single(k));
      if (!stale && (e != 5) && (e >= 6 || i == L - 1 || (h & 1))) for (auto& k : Q) { double r = g.getRisk(mk(k)), w = m.risk(k); CK(vc::near(r, w, 1e-9), "risk_after_update", "%s: risk of (%d %d %d) is %g, expected %g", S.c_str(), k[0], k[1], k[2], r, w); }
      else if (e >= 6) for (auto& k : Q) g.getRisk(mk(k));
    }
    drop(g);
  }
}
int main(int argc, char** argv) {
  vc::init(argc, argv);
  heights(); neighbourhoods(); radii(); histories();
  vc::sample("cells of height -4..60 with every occupancy; 16384 neighbourhoods; update histories such as [map A] [query] [empty message] [map B] [query]");
  return vc::done();
}
