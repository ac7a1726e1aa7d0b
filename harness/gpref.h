#pragma once
// Reference occupancy map and risk of the global planner, written from the parameters' meaning; used by C29-C32, C34.
#include <global_planner/global_planner.h>
namespace gr {
using namespace global_planner;
typedef std::array<int, 3> I3;
inline Cell mk(int x, int y, int z) { return Cell(std::tuple<int, int, int>(x, y, z)); }
inline Cell mk(const I3& i) { return mk(i[0], i[1], i[2]); }
inline I3 ix(const Cell& k) { return {k.xIndex(), k.yIndex(), k.zIndex()}; }
struct Vox { double x, y, z; float lo; };
struct RefMap {
  bool has = false; double res = 1; std::map<I3, float> leaf; std::set<I3> seen;
  double scale = 1, flow = 1, penalty = 0.005, robot = 0.5;
  std::map<I3, double> cache;  // risks of the cells (valid for the current content)
  static constexpr double PR[25] = {1.0, 0.2, 0.1333, 0.1, 0.0833, 0.05, 0.033, 0.025, 0.0166, 0.0125, 0.001, 0.001, 0.001, 0.001, 0.001, 0.001, 0.001, 0.001, 0.001, 0.001, 0.001, 0.001, 0.001, 0.001, 0.001};
  void set(double r, const std::vector<Vox>& v) { has = true; res = r; leaf.clear(); cache.clear(); for (auto& q : v) leaf[I3{(int)std::floor(q.x / r), (int)std::floor(q.y / r), (int)std::floor(q.z / r)}] = q.lo; }
  double prior(int z) const { int i = (int)std::round(scale * (z + 0.5)); return i < 0 ? PR[0] : i > 24 ? PR[24] : PR[i]; }
  static double post(double p, double pri) { return p * pri / (p * pri + (1 - p) * (1 - pri) + 0.0001); }
  bool find(const I3& c, float& lo) const {
    int d = 17 - (int)(scale + 0.1); if (d > 16) d = 16; int w = 1 << (16 - d);
    I3 k; for (int t = 0; t < 3; t++) { int q = (int)std::floor(scale * (c[t] + 0.5) / res); k[t] = (int)std::floor((double)q / w) * w; }
    bool f = false;
    for (int a = 0; a < w; a++) for (int b = 0; b < w; b++) for (int e = 0; e < w; e++) { auto it = leaf.find(I3{k[0] + a, k[1] + b, k[2] + e}); if (it != leaf.end()) { lo = f ? std::max(lo, it->second) : it->second; f = true; } }
    return f;
  }
  double single(const I3& c) const {
    if (c[2] < 1 || !has) return 1.0;
    float lo; if (!find(c, lo)) return penalty * prior(c[2]);
    double p = 1 - 1 / (1 + std::exp((double)lo)), r = post(p, prior(c[2]));
    return seen.count(c) || lo > 0 ? r : penalty * r;
  }
  int radius() const { return (int)std::ceil(robot / (has ? res : 1.0)); }
  double risk(const I3& c) {
    auto it = cache.find(c); if (it != cache.end()) return it->second;
    double r = single(c); int R = radius();
    for (int x = -R; x <= R; x++) { int Y = (int)std::ceil(std::sqrt((double)(R * R - x * x)));
      for (int y = -Y; y <= Y; y++) { int Z = (int)std::ceil(std::sqrt(std::max(0.0, (double)(R * R - x * x - y * y))));
        for (int z = -Z; z <= Z; z++) r += flow * single(I3{c[0] + x, c[1] + y, c[2] + z}); } }
    return cache[c] = r;
  }
  // risk of a straight step: mean risk of the cells it passes times its length
  double step(const I3& a, const I3& b) {
    Node n(mk(b), mk(a)); auto cs = n.getCells(); if (cs.empty()) return NAN;
    double s = 0; for (auto& k : cs) s += risk(ix(k));
    double l = 0; for (int t = 0; t < 3; t++) l += (b[t] - a[t]) * (b[t] - a[t]);
    return s / cs.size() * std::sqrt(l) * scale;
  }
};
constexpr double RefMap::PR[25];
inline octomap::OcTree* tree(double res, const std::vector<Vox>& v) { auto* t = new octomap::OcTree(res); for (auto& q : v) t->setNodeLogOdds(q.x, q.y, q.z, q.lo); return t; }
}
