// C27: the landing grid container over every short history of operations on two grids vs plain tables.
#include "vc.h"
#include <safe_landing_planner/grid.hpp>
using namespace avoidance;
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
struct T { float size, cell; int n; std::vector<double> m, v; std::vector<int> k, l; float cx = NAN, cy = NAN; float lsize = 0;
  void resize(float s, float c) { size = s; cell = c; n = (int)std::ceil(s / c); reset(); } void reset() { m.assign(n * n, 0); v.assign(n * n, 0); k.assign(n * n, 0); l.assign(n * n, 0); } };
struct Op { int kind, g; double a, b; };
static const char* ON[] = {"mean", "variance", "count", "increase", "land", "reset", "resize", "combine", "limits", "copy"};
static std::string show(const std::vector<Op>& h) { std::string s; char b[80]; for (auto& o : h) { snprintf(b, sizeof b, "%s[%d](%g %g) ", ON[o.kind], o.g, o.a, o.b); s += b; } return s; }
static void check(const std::vector<Op>& h, Grid* G, T* t) {
  auto& c = vc::ctx(); uint64_t hs = 0;
  for (int g = 0; g < 2; g++) {
    Grid& x = G[g]; T& y = t[g];
    CK(x.getRowColSize() == y.n && x.getGridSize() == y.size && x.getCellSize() == y.cell, "size", "%s: grid %d reports %d rows, size %g, cell %g; expected %d %g %g", show(h).c_str(), g, x.getRowColSize(), x.getGridSize(), x.getCellSize(), y.n, y.size, y.cell);
    Eigen::MatrixXf m = x.getMean(), v = x.getVariance(); Eigen::MatrixXi k = x.getCounter();
    bool d = m.rows() == y.n && m.cols() == y.n && v.rows() == y.n && v.cols() == y.n && k.rows() == y.n && k.cols() == y.n && x.land_.rows() == y.n && x.land_.cols() == y.n && x.mean_.rows() == y.n && x.mean_.cols() == y.n;
    CK(d, "dimensions", "%s: grid %d has a table of other dimensions than %d", show(h).c_str(), g, y.n);
    if (!d) continue;
    for (int i = 0; i < y.n; i++) for (int j = 0; j < y.n; j++) {
      Eigen::Vector2i q(i, j); int w = i * y.n + j;
      CK(vc::near(x.getMean(q), y.m[w], 1e-5) && vc::near(m(i, j), y.m[w], 1e-5) && vc::near(x.mean_(i, j), y.m[w], 1e-5), "mean", "%s: grid %d cell (%d %d) mean %g, expected %g", show(h).c_str(), g, i, j, x.getMean(q), y.m[w]);
      CK(vc::near(x.getVariance(q), y.v[w], 1e-5) && vc::near(v(i, j), y.v[w], 1e-5), "variance", "%s: grid %d cell (%d %d) variance %g, expected %g", show(h).c_str(), g, i, j, x.getVariance(q), y.v[w]);
      CK(x.getCounter(q) == y.k[w] && k(i, j) == y.k[w], "count", "%s: grid %d cell (%d %d) count %d, expected %d", show(h).c_str(), g, i, j, x.getCounter(q), y.k[w]);
      CK(x.land_(i, j) == y.l[w], "land", "%s: grid %d cell (%d %d) land %d, expected %d", show(h).c_str(), g, i, j, x.land_(i, j), y.l[w]);
      hs = vc::mix(hs, vc::mix(vc::hashf(std::round(y.m[w] * 100)), y.k[w] * 2 + y.l[w]));
    }
    if (!std::isnan(y.cx)) { Eigen::Vector2f lo, hi; x.getGridLimits(lo, hi); CK(vc::near(lo.x(), y.cx - y.lsize / 2, 1e-5) && vc::near(lo.y(), y.cy - y.lsize / 2, 1e-5) && vc::near(hi.x(), y.cx + y.lsize / 2, 1e-5) && vc::near(hi.y(), y.cy + y.lsize / 2, 1e-5), "limits", "%s: grid %d limits (%g %g)..(%g %g)", show(h).c_str(), g, lo.x(), lo.y(), hi.x(), hi.y()); }
  }
  vc::outcome(hs); c.states++;
}
static bool apply(const Op& o, Grid* G, T* t) {
  Grid& x = G[o.g]; T& y = t[o.g]; int n = y.n, i = (int)o.a % n, j = ((int)o.a / 3) % n; Eigen::Vector2i q(i, j); int w = i * n + j;
  switch (o.kind) {
    case 0: x.setMean(q, o.b); y.m[w] = (float)o.b; break;
    case 1: x.setVariance(q, o.b); y.v[w] = (float)o.b; break;
    case 2: x.setCounter(q, (int)o.b); y.k[w] = (int)o.b; break;
    case 3: x.increaseCounter(q); y.k[w]++; break;
    case 4: x.land_(i, j) = 1; y.l[w] = 1; break;
    case 5: x.reset(); y.reset(); break;
    case 6: x.resize(o.a, o.b); y.resize(o.a, o.b); break;
    case 7: { T& z = t[1 - o.g]; if (z.n != y.n) return false; x.combine(G[1 - o.g], o.b); for (int k = 0; k < n * n; k++) { y.m[k] = (float)o.b * z.m[k] + (1 - (float)o.b) * y.m[k]; y.v[k] = (float)o.b * z.v[k] + (1 - (float)o.b) * y.v[k]; } break; }
    case 8: x.setFilterLimits(Eigen::Vector3f(o.a, o.b, 3)); y.cx = o.a; y.cy = o.b; y.lsize = y.size; break;
    case 9: std::swap(G[0], G[1]); std::swap(t[0], t[1]); break;
  }
  return true;
}
int main(int argc, char** argv) {
  vc::init(argc, argv);
  auto& c = vc::ctx();
  std::vector<Op> al;
  for (int g = 0; g < 2; g++) { for (int cell : {0, 5, 7}) { al.push_back({0, g, (double)cell, cell == 5 ? -2.5 : 7.25}); if (cell != 7) al.push_back({1, g, (double)cell, 0.5}); al.push_back({3, g, (double)cell, 0}); if (cell != 0) al.push_back({4, g, (double)cell, 0}); } al.push_back({2, g, 5, 1000}); al.push_back({5, g, 0, 0}); al.push_back({6, g, 3, 1}); al.push_back({6, g, 2, 0.5}); al.push_back({6, g, 5, 2}); for (double a : {0., 0.25, 1.}) al.push_back({7, g, 0, a}); al.push_back({8, g, 10.5, -3.25}); }
  al.push_back({9, 0, 0, 0});
  uint64_t item = 0; int depth = c.thorough ? 5 : 4; std::vector<Op> h;
  std::function<void(Grid*, T*)> rec = [&](Grid* G, T* t) {
    for (auto& o : al) {
      if (h.size() == 1 && !vc::mine(item++)) continue;
      Grid G2[2] = {G[0], G[1]}; T t2[2] = {t[0], t[1]}; h.push_back(o);
      vc::cur("%s", show(h).c_str());
      if (apply(o, G2, t2)) { c.transitions++; check(h, G2, t2); if ((int)h.size() < depth) rec(G2, t2); else c.traces++; }
      h.pop_back();
    }
  };
  for (int a = 0; a < 2; a++) { Grid G[2] = {Grid(3, 1), Grid(a ? 3 : 5, a ? 1 : 2)}; T t[2]; t[0].resize(3, 1); t[1].resize(a ? 3 : 5, a ? 1 : 2); rec(G, t); }
  // every size and cell size of the configurable range on a lattice: dimensions and initial values
  for (int s = 10; s <= 200; s++) { if (!vc::mine(item++)) continue; for (int e = 1; e <= 100; e += e < 20 ? 1 : 7) { float size = s * 0.1f, cell = e * 0.1f; h = {{6, 0, size, cell}}; vc::cur("%s", show(h).c_str()); Grid G[2] = {Grid(size, cell), Grid(4, 1)}; T t[2]; t[0].resize(size, cell); t[1].resize(4, 1); int n = G[0].getRowColSize();
    CK(n >= 1 && n * (double)cell >= size * (1 - 1e-6) && (n - 1) * (double)cell < size * (1 + 1e-6), "cover", "size %g cell %g: %d rows", size, cell, n); if (n == t[0].n) { check(h, G, t); Op o{0, 0, 0, 3}; G[1].land_(1, 1) = 1; G[1].resize(size, cell); t[1].resize(size, cell); h.push_back({6, 1, size, cell}); check(h, G, t); } c.transitions += 2; } }
  vc::sample("%s", show({al[0], al[20], al[30]}).c_str());
  return vc::done();
}
