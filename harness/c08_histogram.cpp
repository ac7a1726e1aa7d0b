// C08: polar histogram vs a plain table, for every cell and every operation history up to the bound.
#include "vc.h"
#include <avoidance/histogram.h>
using namespace avoidance;
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
struct Ref {
  int res, zd, ed; std::vector<double> d;
  Ref(int r) : res(r), zd(360 / r), ed(180 / r), d(zd * ed, 0.0) {}
  double& at(int e, int z) { return d[((e % ed + ed) % ed) * zd + (z % zd + zd) % zd]; }
  bool empty() { for (double x : d) if (x > 0) return false; return true; }
  void up() { Ref n(res / 2); for (int e = 0; e < n.ed; e++) for (int z = 0; z < n.zd; z++) n.at(e, z) = at(e / 2, z / 2); *this = n; }
  void down() { Ref n(res * 2); for (int e = 0; e < n.ed; e++) for (int z = 0; z < n.zd; z++) n.at(e, z) = (at(2 * e, 2 * z) + at(2 * e + 1, 2 * z) + at(2 * e, 2 * z + 1) + at(2 * e + 1, 2 * z + 1)) / 4; *this = n; }
};
static void same(Histogram& h, Ref& r, const std::string& w, bool aliases) {
  auto& c = vc::ctx();
  for (int e = 0; e < r.ed; e++) for (int z = 0; z < r.zd; z++) {
    double x = r.at(e, z); float g = h.get_dist(e, z);
    CK(vc::near(g, x, 1e-5), "cell", "%s: cell (%d,%d) of resolution %d holds %g, expected %g", w.c_str(), e, z, r.res, g, x);
    if (aliases) for (int a : {-2, -1, 0, 1, 2}) for (int b : {-2, -1, 0, 1, 2}) { float q = h.get_dist(e + a * r.ed, z + b * r.zd); CK(vc::near(q, x, 1e-5), "alias", "%s: alias (%d,%d) of cell (%d,%d) reads %g, expected %g", w.c_str(), e + a * r.ed, z + b * r.zd, e, z, q, x); }
  }
  CK(h.isEmpty() == r.empty(), "empty", "%s: isEmpty %d, expected %d", w.c_str(), (int)h.isEmpty(), (int)r.empty());
}
static const int CE[] = {0, 1, 7, 14, 8, 13}, CZ[] = {0, 1, 15, 29, 22, 28};
static const char* NAME[] = {"set0 ", "set1 ", "set2 ", "set3 ", "set4 ", "set5 ", "clr0 ", "clr3 ", "setlast ", "zero ", "up ", "down ", "tiny "};
static void step(Histogram& h, Ref& r, int op, const std::string& w) {
  auto& c = vc::ctx();
  c.transitions++;
  if (op < 6) { float v = 2.5f + op * 3; h.set_dist(CE[op], CZ[op], v); r.at(CE[op], CZ[op]) = v; }
  else if (op < 8) { int k = op == 6 ? 0 : 3; h.set_dist(CE[k], CZ[k], 0.f); r.at(CE[k], CZ[k]) = 0; }
  else if (op == 8) { h.set_dist(r.ed - 1, r.zd - 1, 19.5f); r.at(r.ed - 1, r.zd - 1) = 19.5; }
  else if (op == 9) { h.setZero(); std::fill(r.d.begin(), r.d.end(), 0); }
  else if (op == 12) { h.set_dist(3, 5, 1e-4f); r.at(3, 5) = 1e-4f; }
  else {
    bool legal = op == 10 ? r.res == ALPHA_RES * 2 : r.res == ALPHA_RES, threw = false;
    try { if (op == 10) h.upsample(); else h.downsample(); } catch (const std::logic_error&) { threw = true; }
    CK(threw == !legal, "refused", "%s: rescaling %s at resolution %d was %s", w.c_str(), op == 10 ? "up" : "down", r.res, threw ? "refused" : "accepted");
    if (legal) { if (op == 10) r.up(); else r.down(); }
  }
}
static void rec(const Histogram& h, const Ref& r, const std::string& w, int depth) {
  for (int op = 0; op < 13; op++) {
    Histogram h2 = h; Ref r2 = r; std::string w2 = w + NAME[op];
    vc::cur("operations %s", w2.c_str());
    step(h2, r2, op, w2);
    same(h2, r2, w2, false);
    vc::ctx().states++;
    double hs = 0; for (size_t i = 0; i < r2.d.size(); i++) hs += r2.d[i] * (i + 1); vc::outcome(vc::mix(r2.res, vc::hashf(hs)));
    if (depth > 1) rec(h2, r2, w2, depth - 1); else vc::ctx().traces++;
  }
}
int main(int argc, char** argv) {
  vc::init(argc, argv);
  auto& c = vc::ctx();
  uint64_t item = 0;
  // every cell of both resolutions, with every alias
  for (int res : {ALPHA_RES, 2 * ALPHA_RES}) for (int e = 0; e < 180 / res; e++) { if (!vc::mine(item++)) continue; for (int z = 0; z < 360 / res; z++) {
      char b[64]; snprintf(b, sizeof b, "resolution %d, cell (%d,%d) := 4.25", res, e, z); vc::cur("%s", b);
      Histogram h(res); Ref r(res);
      CK(h.isEmpty(), "fresh", "a fresh histogram of resolution %d is not empty", res);
      h.set_dist(e, z, 4.25f); r.at(e, z) = 4.25; same(h, r, b, e % 7 == 0 || z % 11 == 0);
      for (int a : {-2, -1, 1, 2}) { float q = h.get_dist(e + a * r.ed, z - a * r.zd); CK(q == 4.25f, "alias", "%s: alias reads %g", b, q); }
      Histogram k = h; Ref rk = r;
      if (res == ALPHA_RES) { k.downsample(); rk.down(); } else { k.upsample(); rk.up(); }
      same(k, rk, std::string(b) + " rescaled", false);
      h.set_dist(e, z, 0); r.at(e, z) = 0; same(h, r, std::string(b) + " then cleared", false);
      c.states += 3; c.transitions += 3; c.traces++;
    } }
  // a histogram with all cells different, rescaled both ways
  for (int res : {ALPHA_RES, 2 * ALPHA_RES}) { if (!vc::mine(item++)) continue;
    Histogram h(res); Ref r(res);
    for (int e = 0; e < r.ed; e++) for (int z = 0; z < r.zd; z++) { float v = (e * 37 + z * 101) % 997 / 8.f; h.set_dist(e, z, v); r.at(e, z) = v; }
    for (int i = 0; i < 4; i++) { if (r.res == ALPHA_RES) { h.downsample(); r.down(); } else { h.upsample(); r.up(); } same(h, r, "all cells different, rescaled", true); c.states++; } }
  for (int res : {1, 3, 10, 18, 24, 45}) { if (!vc::mine(item++)) continue; Histogram h(res); Ref r(res); for (int op : {10, 11}) step(h, r, op, "odd resolution"); }
  // histories
  int depth = c.thorough ? 5 : 4;
  for (int res : {ALPHA_RES, 2 * ALPHA_RES}) for (int op = 0; op < 13; op++) for (int op2 = 0; op2 < 13; op2++) { if (!vc::mine(item++)) continue;
    Histogram h(res); Ref r(res); std::string w = "res" + std::to_string(res) + ": " + NAME[op];
    step(h, r, op, w); same(h, r, w, false); w += NAME[op2]; step(h, r, op2, w); same(h, r, w, true); rec(h, r, w, depth - 2); }
  vc::sample("res 6: set0 down set3 up down");
  return vc::done();
}
